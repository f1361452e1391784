REGISTRY = {
    'P01': 'queue.p01',
    'P02': 'queue.p02',
    'P03': 'queue.p03',
    'P04': 'persist.p04',
    'P06': 'download.p06',
    'P07': 'download.p07',
    'P09': 'failover.p09',
    'P10': 'failover.p10',
    'P17': 'access.p17',
    'P08': 'writer.p08',
    'P11': 'hist.p11',
    'P13': 'hist.p13',
    'P15': 'clock.p15',
    'P22': 'clock.p22',
    'P25': 'text.p25',
}
