#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=list(observe),
                               hook_needed=hook)))


prop('P01', 'A queue edit does exactly what was asked and changes nothing else',
     'Every queue edit command (move, priority, pause, resume, pausing of par files, category, name, parameter, duplicate '
     'properties, merge, split, sort, reorder, delete of groups and of files) produces the documented new queue: the '
     'addressed collections or files get the documented change, and order, contents and attributes of everything else stay '
     'as they were. An edit which cannot be carried out reports failure and leaves the queue unchanged.',
     ['histories', 'inputs'],
     'every sequence of edit commands, every selection of ids, every offset and argument, on every queue',
     'The functional tests cover four move commands on one small queue; the result of an edit depends on the whole queue '
     'and on the edits made before.',
     ['daemon/queue/QueueEditor.cpp', 'daemon/queue/QueueCoordinator.cpp', 'daemon/queue/DownloadInfo.cpp', 'daemon/remote/XmlRpc.cpp'],
     [('edit command dispatch', 'QueueEditor::EditList / InternEditList'), ('group moves', 'QueueEditor::MoveEntry, AlignGroups'),
      ('merge and split', 'QueueCoordinator::MergeQueueEntries, SplitQueueEntries')],
     [('queue', 'ordered list of collections, each an ordered list of files', 'DownloadQueue::GetQueue')],
     ['JSON-RPC editqueue result', 'listgroups', 'listfiles'])

prop('P02', 'Totals shown for a collection equal the sum over its files',
     'At every quiescent point the file count, remaining size, paused size, remaining file and par counts reported for a '
     'collection equal what follows from its individual files, and the global remaining and forced sizes equal the sums over '
     'the collections, whatever edits, downloads, failures and restarts happened before.',
     ['histories', 'fault_sequences'],
     'every history of adds, edits, article results and restarts',
     'No test compares the incrementally maintained counters with the files; drift needs particular sequences.',
     ['daemon/queue/QueueCoordinator.cpp', 'daemon/queue/DownloadInfo.cpp', 'daemon/queue/DiskState.cpp', 'daemon/queue/QueueEditor.cpp'],
     [('incremental counters', 'NzbInfo::UpdateCurrentStats / UpdateCompletedStats / UpdateDeletedStats'),
      ('recount', 'NzbInfo::UpdateMinMaxTime, QueueCoordinator::Merge/Split')],
     [('m_remainingSize, m_pausedSize, m_pausedFileCount, m_remainingParCount', 'incremental totals', 'NzbInfo')],
     ['listgroups', 'listfiles', 'status'])

prop('P03', 'Each collection is in exactly one place under an id of its own',
     'Every accepted collection is, at any time, either in the download queue or in the history (shown or hidden), never in '
     'both or twice, until it is explicitly removed, merged or expires. Collection and file ids are unique: while the '
     'program runs an id is never given again, and after a restart no id of a collection or file which still exists is '
     'given to another.',
     ['histories', 'schedules', 'crash_points'],
     'every history of adds, edits, completions, history actions, restarts',
     'Tests look at single collections going through once.',
     ['daemon/queue/QueueCoordinator.cpp', 'daemon/queue/HistoryCoordinator.cpp', 'daemon/queue/DownloadInfo.cpp', 'daemon/queue/DiskState.cpp'],
     [('move to history', 'HistoryCoordinator::AddToHistory'), ('id generation', 'NzbInfo::GenerateId / ResetGenId, FileInfo::GenerateId')],
     (), ['listgroups', 'history', 'listfiles'])

prop('P04', 'A restart gives back the same queue and history',
     'After a regular shutdown and start, the queue (order, files, pause states, priorities, categories, parameters, duplicate '
     'properties, article progress and totals), the post-processing stage, the history, the feed history and the statistics are '
     'what they were before the shutdown.',
     ['histories', 'inputs'],
     'every reachable queue and history content, including unusual names and values',
     'The state files are not covered by any test (no test restarts the program).',
     ['daemon/queue/DiskState.cpp', 'daemon/queue/QueueCoordinator.cpp', 'daemon/main/nzbget.cpp'],
     [('text serialisation', 'DiskState::SaveDownloadQueue/LoadDownloadQueue, SaveNzbInfo/LoadNzbInfo, SaveFile/LoadFile')],
     [('queue, history, N*, F*s files', 'state on disk', 'QueueDir')], ['listgroups', 'listfiles', 'history'])

prop('P05', 'A crash at any point loses nothing that was acknowledged',
     'If the process dies at any file operation, the next start comes up with the queue and history either from before or from '
     'after the command in progress: every collection whose addition was acknowledged is still there with its files, every '
     'acknowledged edit is in effect, and downloads which continue still end with complete and correct files.',
     ['crash_points', 'histories'],
     'death of the process before and in the middle of every mutating file operation of the histories run',
     'No test kills the program.',
     ['daemon/queue/DiskState.cpp', 'daemon/queue/QueueCoordinator.cpp', 'daemon/nntp/ArticleWriter.cpp'],
     [('write new file then replace', 'StateFile::BeginWrite/FinishWrite'), ('recovery', 'StateFile::BeginRead'),
      ('partial state', 'DiskState::SavePartialState / SaveFileState')],
     [('queue.new, *.new', 'state being written', 'QueueDir')], ['state after restart', 'downloaded files'])

prop('P06', 'Downloads follow priority, queue order and pause state',
     'With one connection, the next article requested always belongs to the first file, in queue order, of the collection with the '
     'highest priority which has something to download; nothing is requested for paused or deleted files, and while the queue is '
     'paused only collections with force priority (900 and up) are downloaded. Every change of order, priority or pause state is '
     'in effect from the next request on.',
     ['histories', 'schedules'],
     'every queue, and every edit between any two article requests',
     'Tests only check the final result of a download, never the order of requests.',
     ['daemon/queue/QueueCoordinator.cpp', 'daemon/queue/QueueEditor.cpp', 'daemon/queue/DownloadInfo.cpp'],
     [('choice of next article', 'QueueCoordinator::GetNextArticle'), ('pause gate', 'QueueCoordinator::Run')],
     (), ['order of requests at the news server'])

prop('P07', 'Article results are accounted once and decide the outcome',
     'Every article of a collection that is not removed ends as either successful or failed, exactly once; the reported counts of '
     'successful, failed and total articles, the per-server counts, the health and the final status of the collection agree with '
     'what the news servers delivered, and a file with no successful article is never reported as downloaded.',
     ['fault_sequences', 'schedules', 'histories'],
     'every assignment of good, missing, damaged and interrupted articles to files and servers',
     'Tests download complete collections or one with a fixed damage.',
     ['daemon/queue/QueueCoordinator.cpp', 'daemon/nntp/ArticleDownloader.cpp', 'daemon/queue/DownloadInfo.cpp', 'daemon/postprocess/PrePostProcessor.cpp'],
     [('article completion', 'QueueCoordinator::ArticleCompleted, DeleteFileInfo'), ('health', 'NzbInfo::CalcHealth/CalcCriticalHealth'),
      ('status text', 'HistoryInfo / NzbInfo::MakeTextStatus')],
     (), ['listgroups', 'history', 'files on disk'])

prop('P08', 'Downloaded files are byte-exact in every write mode',
     'A file whose articles were all delivered intact is byte for byte the posted file, whatever the write mode (direct write, '
     'article cache, temporary files), article order, retries, size of articles, pauses, or restarts in between. A file with '
     'missing articles contains the delivered parts at their posted offsets.',
     ['configurations', 'schedules', 'fault_sequences', 'crash_points'],
     'every write mode, every order of arrival, every subset of lost articles, restart at any point',
     'The tests run one write mode with whole files from a local server.',
     ['daemon/nntp/ArticleWriter.cpp', 'daemon/nntp/ArticleDownloader.cpp', 'daemon/nntp/Decoder.cpp', 'daemon/queue/QueueCoordinator.cpp', 'lib/yencode'],
     [('assembling', 'ArticleWriter::CompleteFileParts'), ('cache flush', 'ArticleWriter::FlushCache, ArticleCache'), ('yEnc decoder', 'Decoder')],
     (), ['files in the destination directory'])

prop('P09', 'Server failover: every server tried as configured, failed only at the end',
     'An article is reported failed only after every usable news server was tried as often as configured, in order of level (attempts are counted over '
     'lost connections, optional servers which cannot be connected may be left out); a '
     'server of the same group which does not have the article is not asked for it again through another member of its group, '
     'servers which are inactive, or whose retention is too short, are never asked, and the failure of an optional server does not '
     'stop the article from being fetched elsewhere.',
     ['fault_sequences', 'configurations'],
     'every configuration of levels, groups, optional, retention and retries, with every assignment of article results to servers',
     'The tests configure one or two healthy servers.',
     ['daemon/nntp/ArticleDownloader.cpp', 'daemon/nntp/ServerPool.cpp', 'daemon/nntp/NewsServer.cpp'],
     [('retry loop', 'ArticleDownloader::Run'), ('choice of connection', 'ServerPool::LockedGetConnection'), ('blocking', 'ServerPool::BlockServer')],
     (), ['requests at each news server', 'article counts'])

prop('P10', 'Connection limits hold and a free connection is found',
     'A news server never sees more concurrent connections in use than configured for it, and inactive servers see none. '
     'Whenever a usable server of the wanted level has a free connection, a request for one is granted.',
     ['schedules', 'configurations'],
     'every sequence of acquisitions, releases, blocks and activations on every server set',
     'Depends on the interleaving of threads and on blocking, which the tests do not control.',
     ['daemon/nntp/ServerPool.cpp', 'daemon/nntp/ServerPool.h'],
     [('pool', 'ServerPool::GetConnection / FreeConnection / BlockServer'), ('levels', 'ServerPool::InitConnections, NormalizeLevels')],
     (), ['ServerPool API', 'connections at the news servers'])

prop('P11', 'Duplicate handling keeps exactly the best copy',
     'When an added collection is a duplicate of one in the queue or history it is downloaded, kept as backup or skipped as its '
     'duplicate mode and score and the state of the others say; in score mode no second copy is downloaded while an equally good '
     'or better one is being downloaded or succeeded, and when a download fails its best backup is put back into the queue. '
     'Mode all and force are never skipped for that reason.',
     ['histories'],
     'every sequence of adds with keys, scores, modes and contents, with every outcome of the downloads, marks and deletes',
     'There are no tests for the interplay of queue and history here.',
     ['daemon/queue/DupeCoordinator.cpp', 'daemon/queue/HistoryCoordinator.cpp', 'daemon/queue/QueueCoordinator.cpp'],
     [('on add', 'DupeCoordinator::NzbFound'), ('on completion', 'DupeCoordinator::NzbCompleted, ReturnBestDupe'), ('marking', 'DupeCoordinator::HistoryMark, HistoryCleanup')],
     (), ['listgroups', 'history'])

prop('P12', 'The health check acts exactly when health is critical',
     'When, and only when, the health of a collection falls below its critical health while downloading, the configured action '
     '(none, pause, park, delete) is taken, once; a collection whose health check was already done, or which can still be '
     'repaired, is left alone.',
     ['fault_sequences', 'configurations'],
     'every pattern of failed articles, par sizes and actions',
     'The threshold depends on the exact sequence of failures; not covered by tests.',
     ['daemon/queue/QueueCoordinator.cpp', 'daemon/queue/DownloadInfo.cpp', 'daemon/postprocess/PrePostProcessor.cpp'],
     [('check', 'QueueCoordinator::CheckHealth'), ('action on event', 'PrePostProcessor::NzbDownloaded / NzbDeleted, QueueEditor')],
     (), ['listgroups', 'history', 'requests at the news server'])

prop('P13', 'History actions do what they say',
     'Delete, final delete, return to queue, redownload, retry failed, process again, mark good/bad/success, and the setting of name, '
     'category, parameters and duplicate properties act on exactly the addressed history items: a returned or redownloaded '
     'collection is in the queue with the files it should fetch (all, the remaining or the failed ones), everything else in '
     'history and queue is unchanged, and history items disappear (or become hidden) by age exactly when configured.',
     ['histories'],
     'every sequence of history actions over items in every state',
     'No test touches the history beyond reading one status.',
     ['daemon/queue/HistoryCoordinator.cpp', 'daemon/queue/QueueEditor.cpp', 'daemon/queue/DupeCoordinator.cpp'],
     [('actions', 'HistoryCoordinator::EditList, HistoryReturn, HistoryRedownload, HistoryRetry'), ('age', 'HistoryCoordinator::ServiceWork')],
     (), ['history', 'listgroups', 'editqueue result'])

prop('P14', 'Traffic is accounted exactly and quotas stop downloading',
     'Every byte received from a server is counted once in the per-server and total volumes, in the bucket of the second, minute, hour '
     'and day in which it was received; the month and day totals are the sums over the right days for every clock change and start '
     'day, and downloading stops when, and only while, a configured quota is reached.',
     ['histories', 'inputs', 'configurations'],
     'every sequence of traffic, clock movements (forwards, backwards), day and month ends, quota settings, restarts',
     'Nothing tests the meter; it depends on the clock.',
     ['daemon/nntp/StatMeter.cpp', 'daemon/queue/DiskState.cpp', 'daemon/queue/QueueCoordinator.cpp'],
     [('buckets', 'ServerVolume::CalcSlots / AddData'), ('quota', 'StatMeter::CheckQuota, CalcQuotaUsage, CalcMonthUsage')],
     (), ['servervolumes', 'status'])

prop('P15', 'Scheduled tasks run exactly at their times',
     'Each scheduler task is executed once for every due point in time (weekday, hour and minute, or "*" hours) the clock passes, in '
     'order of time, also when several become due at once or the clock jumps by less than the documented limit, and never at another time.',
     ['histories', 'configurations'],
     'every set of tasks and every sequence of clock movements',
     'Depends on the clock; there is no test.',
     ['daemon/main/Scheduler.cpp', 'daemon/main/Options.cpp'],
     [('due tasks', 'Scheduler::CheckTasks, ExecuteTask'), ('parsing', 'Options::ConfigErrorOrSchedulerTask / InitScheduler')],
     (), ['effects of commands seen through status'])

prop('P16', 'Feeds: every new matching item is fetched once, filters as documented',
     'After any number of fetches each item of a feed is added to the queue at most once, exactly the items which the filter '
     'accepts are added (with the options the rule gives), items already in the feed on its first fetch are only added if backlog is enabled, '
     'and item state survives a restart.',
     ['histories', 'inputs'],
     'every sequence of feed contents, filters and restarts',
     'Only the feed parser and a few filters have unit tests, not the coordination of fetches.',
     ['daemon/feed/FeedCoordinator.cpp', 'daemon/feed/FeedFilter.cpp', 'daemon/feed/FeedInfo.cpp', 'daemon/queue/DiskState.cpp'],
     [('new items', 'FeedCoordinator::ProcessFeed, CheckItem'), ('filter', 'FeedFilter::Match')],
     (), ['viewfeed', 'listgroups', 'requests for urls'])

prop('P17', 'Every request is limited to what its credentials allow',
     'A remote request is executed only with valid credentials (or from an authorised address): the add-only user can only add '
     'downloads and ask for the version, the restricted user cannot change or see protected configuration, state changing methods are not '
     'available through GET requests of JSON-RPC and XML-RPC (JSONP, which has only GET, is meant for them), and a request without valid credentials '
     'has no effect and learns nothing (with form authentication the files of the web interface itself are public).',
     ['inputs', 'configurations'],
     'every method, credential, way of passing credentials, request form (JSON-RPC, XML-RPC, JSONP-RPC, GET) and configuration of users',
     'Tests run with authentication switched off.',
     ['daemon/remote/WebServer.cpp', 'daemon/remote/XmlRpc.cpp', 'daemon/remote/RemoteServer.cpp'],
     [('authentication', 'WebProcessor::CheckCredentials / ParseHeaders'), ('authorisation', 'XmlRpcProcessor::CreateCommand, IsSafeMethod')],
     (), ['HTTP responses', 'state after the request'])

prop('P18', 'Names from outside never reach files outside the configured directories',
     'Whatever names occur in nzb files, article headers, par files, categories, urls, web requests and edit commands, files are only '
     'created, changed, deleted or served inside the configured directories.',
     ['inputs'],
     'every name in every place a name can come from',
     'Tests use well behaved names.',
     ['daemon/util/FileSystem.cpp', 'daemon/queue/NzbFile.cpp', 'daemon/queue/QueueCoordinator.cpp', 'daemon/remote/WebServer.cpp', 'daemon/queue/Scanner.cpp', 'daemon/nntp/ArticleWriter.cpp'],
     [('valid names', 'FileSystem::MakeValidFilename, NzbInfo::BuildDestDirName, MakeNiceNzbName'), ('web files', 'WebProcessor::Dispatch')],
     (), ['system calls of the process (preloaded library)', 'HTTP responses'])

prop('P19', 'Files put into the incoming directory are taken exactly once',
     'A nzb file put into the incoming directory is queued exactly once, with the category of its subdirectory, after it has stopped changing for '
     'the configured time, and then renamed so that it is never taken again; a broken one is marked as error, and other files are left alone.',
     ['histories', 'inputs', 'configurations'],
     'every timing of writes and scans, file names, subdirectories and restarts',
     'No test uses the incoming directory.',
     ['daemon/queue/Scanner.cpp', 'daemon/queue/QueueCoordinator.cpp'],
     [('stability check', 'Scanner::CanProcessFile'), ('processing', 'Scanner::ProcessIncomingFile, AddFileToQueue')],
     (), ['incoming directory', 'listgroups'])

prop('P20', 'An added URL ends as a download or as a failed history entry',
     'Each added URL is fetched (respecting pause and force rules and the connection limit), and then either replaced by the collection it '
     'delivers, which gets the properties given with the URL, or put into history as failed after the configured retries; it is never lost or '
     'fetched again after success.',
     ['fault_sequences', 'schedules', 'histories'],
     'every server behaviour (success, redirect, error codes, wrong content, connection loss), pauses, deletes and restarts while fetching',
     'No test adds a URL.',
     ['daemon/queue/UrlCoordinator.cpp', 'daemon/connect/WebDownloader.cpp', 'daemon/queue/QueueCoordinator.cpp'],
     [('fetching', 'UrlCoordinator::Run, GetNextUrl, UrlCompleted'), ('adding', 'UrlCoordinator::AddUrlToQueue, Scanner')],
     (), ['listgroups', 'history', 'requests at the web server'])

prop('P21', 'Post-processing runs the configured stages once and reports them truthfully',
     'Each completed collection goes through the configured stages and extension scripts once, in the configured order, one collection at a '
     'time unless configured otherwise; scripts get the documented environment, their result codes and the results of the stages decide the reported '
     'status, and no post-processing starts while it is paused.',
     ['histories', 'schedules', 'configurations', 'fault_sequences'],
     'every set of scripts with every exit code, priority, pause and strategy',
     'Tests cover par-check and unpacking of single collections without scripts.',
     ['daemon/postprocess/PrePostProcessor.cpp', 'daemon/extension/PostScript.cpp', 'daemon/extension/ScriptController.cpp', 'daemon/extension/ScriptConfig.cpp'],
     [('stage machine', 'PrePostProcessor::CheckPostQueue, StartJob'), ('script result', 'PostScriptController::AnalyseExitCode')],
     (), ['script executions', 'history'])

prop('P22', 'Pause states change only by request, and timed resume works',
     'The pause states of downloading, post-processing, scanning and the speed limit are exactly what the last commands set; a timed resume lifts all pauses '
     'when, and only when, its time has come and no other pause or resume command was given since; no article is requested while downloading is paused '
     '(except with force priority).',
     ['histories', 'schedules'],
     'every sequence of pause, resume, timed resume, rate commands and clock movements',
     'No test pauses.',
     ['daemon/main/WorkState.cpp', 'daemon/main/Scheduler.cpp', 'daemon/remote/XmlRpc.cpp', 'daemon/queue/QueueCoordinator.cpp'],
     [('timed resume', 'XmlRpc ScheduleResume, PrePostProcessor/Scheduler check'), ('state', 'WorkState')],
     (), ['status', 'requests at the news server'])

prop('P23', 'Configuration is loaded, interpreted and saved faithfully',
     'What is saved through the API is what the next load returns; options given in the file, defaults, command line, references between options and numbered options '
     '(servers, categories, feeds, tasks) are combined as documented, and an invalid value is reported and replaced by a valid one.',
     ['inputs', 'configurations'],
     'every set of options and values, including special characters and references',
     'Two unit tests cover a handful of options.',
     ['daemon/main/Options.cpp', 'daemon/extension/ScriptConfig.cpp', 'daemon/remote/XmlRpc.cpp'],
     [('parsing', 'Options::LoadConfigFile, SetOption, ConvertOldOption'), ('saving', 'ScriptConfig::SaveConfig')],
     (), ['config', 'loadconfig', 'saveconfig'])

prop('P24', 'Log messages are complete, ordered and bounded',
     'The log returned to clients contains the newest messages in order with strictly increasing ids, bounded by the configured size; a query from an id '
     'returns exactly the retained messages from that id on, messages of a collection are returned for that collection only, and clearing removes all.',
     ['histories', 'inputs'],
     'every sequence of messages of all kinds, sizes and queries',
     'No test reads the log.',
     ['daemon/util/Log.cpp', 'daemon/remote/XmlRpc.cpp'],
     [('ring buffer', 'Log::AddMessage'), ('query', 'LogXmlCommand::Execute')],
     (), ['log', 'loadlog'])

prop('P25', 'Every response is well formed and returns text exactly',
     'Every response of the remote API is valid JSON or XML, and names, categories, parameters and messages containing any characters are returned '
     'exactly as they were given, whichever of the request formats is used.',
     ['inputs'],
     'every text in every request format',
     'Tests use plain ASCII names over one format.',
     ['daemon/remote/XmlRpc.cpp', 'daemon/util/Util.cpp'],
     [('encoding', 'XmlCommand::EncodeStr / WebUtil::JsonEncode, XmlEncode'), ('decoding', 'XmlCommand::DecodeStr')],
     (), ['HTTP responses'])

# checks that exist: property -> (technique, level, note)
CHECKS = {}
NA = {}
exec(open(os.path.join(V, 'tools', 'checks.py')).read())

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    m = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='VP_HOOKS', enable='no hooks are needed: the checks use an unmodified build of /repo under a preloaded library', source_commits=[]),
             checks=[], not_applicable=[])
    for p in P:
        i = p['id']
        if i in CHECKS:
            t, l, n = CHECKS[i]
            m['checks'].append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                                    evidence_file='evidence/%s.json' % i, technique=t, level=l, level_note=n))
        else:
            m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check built yet')))
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')
    import jsonschema
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P:
        jsonschema.validate(p, ps)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print(len(P), 'properties', len(m['checks']), 'checks')
