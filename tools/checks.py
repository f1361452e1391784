# property -> (technique, level, level_note)
T = 'TLA+ (TLC): '
CHECKS['P01'] = (T + 'command histories generated from NzbQueue.tla by TLC, replayed against the built program over JSON-RPC, recorded observations validated by TLC against the same specification',
                 'model_checking', 'histories of up to 28 (thorough 40) commands on up to 7 collections with up to 6 files each')
CHECKS['P02'] = (T + 'the same histories with restarts, totals derived by the specification compared with the reported ones by TLC',
                 'model_checking', 'edits and restarts of waiting queues, and edits between the articles of running downloads (1, 2 or 4 connections) with 25% failed articles')
CHECKS['P03'] = (T + 'the same histories with restarts, ids and places compared by TLC',
                 'model_checking', 'histories as for P02')
CHECKS['P06'] = (T + 'random command histories while the scripted news server holds the running articles; the recorded order of requests validated by TLC against Download.tla',
                 'model_checking', 'about 60 (thorough 800) histories of 20-30 rounds of commands between article answers, 1, 2 and 4 connections, one news server')
CHECKS['P07'] = (T + 'the same with 25% missing or damaged articles; counts, health, totals and final status validated by TLC against Download.tla after every answer',
                 'model_checking', 'about 50 (thorough 600) histories, 1, 2 and 4 connections, one news server, manual par-check')
CHECKS['P04'] = (T + 'random histories of edits, downloads with failures, history actions and restarts; everything the API shows before each shutdown and after the next start compared by TLC (Persist.tla); the histories of P01/P06 with restarts validated against NzbQueue.tla and Download.tla',
                 'model_checking', 'about 100 histories (thorough 1600) with one restart in eight steps; regular shutdowns (crashes: P05)')
CHECKS['P09'] = (T + 'FailoverMC.tla model-checked exhaustively for all small server configurations and answers; random server configurations with scripted servers (several news servers on separate loopback ports), every recorded request, answer and decision validated by TLC against the same next-state relation (FailoverTrace.tla)',
                 'model_checking', 'model: up to 4 servers, 2 articles; real runs: up to 5 servers on 3 levels with groups, optional, retention, inactive ones, switching servers while downloading')
CHECKS['P10'] = (T + 'the same; connections seen by the scripted servers are a state variable of the specification',
                 'model_checking', 'as for P09')
CHECKS['P17'] = (T + 'TLC enumerates every kind of request (credentials, way of transmitting them, protocol, HTTP method, method class, origin address, configuration) from Access.tla, each is sent to the real program in random order sessions, TLC decides whether what was answered and what changed is allowed',
                 'model_checking', 'all 35308 kinds of request, six configurations; thorough six passes with other orders and methods')
CHECKS['P08'] = (T + 'Writer.tla (parts of a file in memory, temporary files, final file; flushes, restarts, crashes) model-checked exhaustively; random downloads in every write mode compared byte by byte with what the scripted servers delivered, TLC decides whether each file is what the specification promises (WriterTrace.tla)',
                 'model_checking', 'model: 4 (thorough 6) parts; about 80 (thorough 1500) sessions with up to 4 collections of 5 files, yEnc and uuencode, lost and damaged articles, restarts, renames, pauses, answers in pieces of random length')
CHECKS['P25'] = (T + 'TLC enumerates texts from hard tokens (TextGen.tla), given in six request formats and read back as JSON, JSONP and XML; answers of all methods compared between protocols; TLC decides (TextTrace.tla)',
                 'model_checking', 'all texts of up to 3 (thorough 4) of 24 tokens')
CHECKS['P11'] = (T + 'HistoryMC.tla (duplicate decisions of History.tla) model-checked exhaustively; random histories of adding duplicates, downloads which succeed or fail, deleting and marking on the real program, every observed queue, history and disk state validated by TLC (HistoryTrace.tla)',
                 'model_checking', 'model: all histories of up to 5 (all modes: 3-4) additions; about 60 (thorough 800) real histories of 30-45 steps with all modes, keys and scores')
CHECKS['P13'] = (T + 'the same specification with all history actions, passing days (clock of the program shifted) and restarts; every observed queue, history and disk state validated by TLC',
                 'model_checking', 'about 60 (thorough 800) histories of 30-45 steps; collections without par files and archives')
CHECKS['P15'] = (T + 'ClockMC.tla (every task once per due point) model-checked exhaustively over all sequences of clock steps of two days; random task lists and a frozen clock of the real program moved in steps (seconds to weeks, back and forth, restarts, time zones); started processes and the states tasks change validated by TLC against Clock.tla after every step',
                 'model_checking', 'about 80 (thorough 1500) sessions of 40-80 steps with up to 5 tasks; all commands but Extensions and FetchFeed')
CHECKS['P22'] = (T + 'the same with pause, resume, rate and scheduleresume commands between the steps of the clock; requests while paused are covered by Download.tla (P06)',
                 'model_checking', 'about 60 (thorough 800) sessions of 40-80 steps')
