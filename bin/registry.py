"""What each check runs; see bin/check."""
CHECKS = {}

TLA = 'TLA+ specification checked with TLC; executions of the real code validated against it by TLC'
CODEC = ('Every recorded call of the real code is judged by TLC against the TLA+ definition of the format (spec/Codec.tla): '
         'every byte and byte pair at boundary values, every truncation, random records. Not exhaustive over all byte strings.')


def codec(prop, what, module='TraceCodec', **kw):
    CHECKS[prop] = dict(dict(
        level='model_checking', technique=TLA, note=CODEC,
        drivers=[dict(driver='codec.py', args=[what], trace=what + '.ndjson')],
        traces=[dict(module=module, trace=what + '.ndjson')],
    ), **kw)


codec('C05', 'crc', models=[dict(module='MCCodec', cfg='MCCrc.cfg', workers=8)])
codec('C08', 'loop2', models=[dict(module='MCCodec', cfg='MCDegrees.cfg')])
codec('C09', 'stamps', models=[dict(module='MCCodec', cfg='MCStamp.cfg', thorough_cfg='MCStampAll.cfg')])
codec('C10', 'download')
codec('C11', 'wlk')
codec('C12', 'summary')
codec('C13', 'files', module='TraceFiles')

NUMERICS = ('Every recorded call is judged by TLC with exact integer arithmetic (spec/Big.tla, spec/Numerics.tla): dense around every '
            'threshold, random elsewhere in the range of weather values. Not exhaustive.')


def numerics(prop, what, **kw):
    CHECKS[prop] = dict(dict(
        level='model_checking', technique=TLA, note=NUMERICS,
        drivers=[dict(driver='numerics.py', args=[what], trace=what + '.ndjson')],
        traces=[dict(module='TraceNumerics', trace=what + '.ndjson')],
    ), **kw)


numerics('C16', 'rain')
numerics('C17', 'conversions', models=[dict(module='MCNumerics', cfg='MCNumerics.cfg')])
numerics('C18', 'heat')
numerics('C19', 'chill')
numerics('C20', 'formulas')
numerics('C21', 'days')

DERIVED = ('Every recorded call is judged by TLC against spec/Derived.tla: all short histories of a small alphabet, all records with up '
           'to two measurements missing or present, random ones beyond. The formulas themselves are decided by C18-C20.')


def derived(prop, what, **kw):
    CHECKS[prop] = dict(dict(
        level='model_checking', technique=TLA, note=DERIVED,
        drivers=[dict(driver='derived.py', args=[what], trace=what + '.ndjson')],
        traces=[dict(module='TraceDerived', trace=what + '.ndjson')],
    ), **kw)


derived('C22', 'window')
derived('C23', 'derive')

LINK = ('TLC enumerates all histories up to a length of connect, disconnect and with blocks with every fault; each is replayed on the real '
        'communicator over real sockets, with random longer ones, and every recorded history is judged by TLC against spec/Link.tla.')
CHECKS['C01'] = dict(
    level='model_checking', technique=TLA, note=LINK,
    generators=[dict(module='MCLink', cfg='MCLinkGen.cfg', thorough_cfg='MCLinkGen3.cfg', out='link.behaviours'),
                dict(module='MCLink', cfg='MCLinkTwoGen.cfg', out='link2.behaviours')],
    models=[dict(module='MCLink', cfg='MCLink.cfg'), dict(module='MCLink', cfg='MCLinkTwo.cfg')],
    drivers=[dict(driver='link.py', args=['link.behaviours', 'link2.behaviours'], trace='link.ndjson')],
    traces=[dict(module='TraceLink', trace='link.ndjson')])

CONSOLE = ('TLC enumerates all shapes of conversations up to a length; each, filled with contents, takes place between the real communicator '
           'and an emulated console over a real connection, with sweeps and random longer ones; TLC judges each against spec/Console.tla.')
for prop in ('C02', 'C03', 'C04', 'C06'):
    CHECKS[prop] = dict(
        level='model_checking', technique=TLA, note=CONSOLE,
        generators=[dict(module='MCConsole', cfg='MCConsole%s-2.cfg' % prop, thorough_cfg='MCConsole%s-3.cfg' % prop,
                         out='shapes.behaviours')],
        models=[dict(module='MCConsole', cfg='MCConsole%s-small.cfg' % prop, thorough_cfg='MCConsole%s.cfg' % prop)],
        drivers=[dict(driver='conversation.py', args=[prop, 'shapes.behaviours'], trace='conversation.ndjson')],
        traces=[dict(module='TraceConsole', trace='conversation.ndjson')])

POLL = ('TLC checks all interleavings of caller, session, console and callback (also liveness under fairness) and enumerates all schedules of '
        'outside actions up to a length; these, random longer ones, and schedules that pause the session or the caller at every line it '
        'executes while the other goes on, run on the real poller; TLC judges each recorded history against spec/Poll.tla.')
CHECKS['C07'] = dict(
    level='model_checking', technique=TLA, note=POLL,
    generators=[dict(module='MCPoll', cfg='MCPollGen.cfg', thorough_cfg='MCPollGen6.cfg', out='poll.behaviours')],
    models=[dict(module='MCPoll', cfg='MCPoll.cfg', thorough_cfg='MCPollBig.cfg'), dict(module='MCPoll', cfg='MCPollLive.cfg'),
            dict(module='MCPoll', cfg='MCPollTwo.cfg')],
    drivers=[dict(driver='poll.py', args=['poll.behaviours', str(i), '6'], trace='poll-%s.ndjson' % i) for i in range(6)],
    traces=[dict(module='TracePoll', trace='poll-%s.ndjson' % i) for i in range(6)])

DOWNLOADS = ('TLC enumerates all answers of the service with all short sequences of records and checks what C14 demands of the outcome; each '
             'is filled with contents and served to the real downloader through its HTTP transport, alone and in sequences; TLC judges the '
             'requests, records and announced attributes against spec/Download.tla.')
CHECKS['C14'] = dict(
    level='model_checking', technique=TLA, note=DOWNLOADS,
    generators=[dict(module='MCDownload', cfg='MCDownload1.cfg', thorough_cfg='MCDownload2.cfg', out='download.behaviours')],
    models=[dict(module='MCDownload', cfg='MCDownload.cfg')],
    drivers=[dict(driver='download.py', args=['download.behaviours'], trace='download.ndjson')],
    traces=[dict(module='TraceDownload', trace='download.ndjson')])

UPDATES = ('Every recorded update - its requests as they leave through the HTTP transport, and its outcome - is judged by TLC against '
           'spec/Updates.tla, in the history of its exporter: %s.')


def updates(prop, what, **kw):
    generators = kw.get('generators', [])
    CHECKS[prop] = dict(dict(
        level='model_checking', technique=TLA, note=UPDATES % what,
        drivers=[dict(driver='updates.py', args=[prop] + [g['out'] for g in generators], trace='updates.ndjson')],
        traces=[dict(module='TraceUpdates', trace='updates.ndjson')]), **kw)


updates('C33', 'all kinds of answers in short histories (from TLC), every pair of measurements missing or present, random records',
        generators=[dict(module='MCUpdates', cfg='MCUpdatesGen.cfg', out='updates.behaviours')])
updates('C34', 'histories longer than both windows with every pattern of gusts, directions and missing values',
        models=[dict(module='MCUpdates', cfg='MCUpdates.cfg', thorough_cfg='MCUpdatesBig.cfg')])
updates('C25', 'moments around every change of 22 time zones and elsewhere, zones given by name and as objects',
        models=[dict(module='MCCalendar', cfg='MCZones.cfg', thorough_cfg='MCZonesAll.cfg'), dict(module='MCCalendar', cfg='MCCalendar.cfg')])
CHECKS['C25']['drivers'].append(dict(driver='archive.py', args=['C25'], trace='archive.ndjson'))
CHECKS['C25']['traces'].append(dict(module='TraceArchive', trace='archive.ndjson'))

SERVER = ('The real exporter talks to an emulated MySQL server (its statements run on a real relational engine with the schema of mysql.sql, '
          'MySQL conversions, transactions and snapshots); what other connections see afterwards is judged by TLC against %s. %s')
CHECKS['C24'] = dict(
    level='model_checking', technique=TLA,
    note=SERVER % ('spec/Archive.tla', 'All short histories of exports over two connections (from TLC), every measurement missing, alone or '
                   'zero, random records, column maps and table names.'),
    generators=[dict(module='MCArchive', cfg='MCArchiveGen.cfg', thorough_cfg='MCArchiveGen3.cfg', out='archive.behaviours')],
    models=[dict(module='MCArchive', cfg='MCArchiveSmall.cfg', thorough_cfg='MCArchive.cfg')],
    drivers=[dict(driver='archive.py', args=['C24', 'archive.behaviours'], trace='archive.ndjson')],
    traces=[dict(module='TraceArchive', trace='archive.ndjson')])

SUMMARIES = SERVER % ('spec/Summaries.tla', 'TLC also checks a procedure for recalculation against what the rows must be. Histories: all short '
                      'shapes (from TLC) over days at ends of years, months and ISO weeks, random ones with ties, zeros, missing values.')
for prop in ('C26', 'C27', 'C28'):
    CHECKS[prop] = dict(
        level='model_checking', technique=TLA, note=SUMMARIES,
        generators=[dict(module='MCSummaries', cfg='MCSummariesGen.cfg', thorough_cfg='MCSummariesGen3.cfg', out='summaries.behaviours')],
        models=[dict(module='MCSummaries', cfg='MCSummariesSmall.cfg', thorough_cfg='MCSummaries.cfg')],
        drivers=[dict(driver='summaries.py', args=[prop, 'summaries.behaviours', str(i), '5'], trace='summaries-%s.ndjson' % i) for i in range(5)],
        traces=[dict(module='TraceSummaries', trace='summaries-%s.ndjson' % i) for i in range(5)])

RAIN = SERVER % ('spec/Rain.tla', 'TLC also checks the scan of the records, in batches and resumed, against the definition of events. Histories: '
                 'all short sequences of records and runs (from TLC), random ones, events of over a thousand records.')
for prop in ('C29', 'C30'):
    CHECKS[prop] = dict(
        level='model_checking', technique=TLA, note=RAIN,
        generators=[dict(module='MCRain', cfg='MCRainGen.cfg', thorough_cfg='MCRainGen5.cfg', out='rain.behaviours')],
        models=[dict(module='MCRain', cfg='MCRainSmall.cfg', thorough_cfg='MCRain.cfg')],
        drivers=[dict(driver='rain.py', args=[prop, 'rain.behaviours', str(i), '6'], trace='rain-%s.ndjson' % i) for i in range(6)],
        traces=[dict(module='TraceRain', trace='rain-%s.ndjson' % i) for i in range(6)])

CHECKS['C31'] = dict(
    level='model_checking', technique=TLA,
    note=SERVER % ('spec/Transactions.tla', 'TLC checks the exporter\'s way of working against a transactional server with faults at every step, and '
                   'generates all short histories; every statement of every operation fails in four ways, and random histories follow. What an '
                   'operation does without faults is taken from a run on a copy of the database.'),
    generators=[dict(module='MCTransactions', cfg='MCTransactionsGen.cfg', out='transactions.behaviours')],
    models=[dict(module='MCTransactions', cfg='MCTransactionsSmall.cfg', thorough_cfg='MCTransactions.cfg')],
    drivers=[dict(driver='transactions.py', args=['transactions.behaviours', str(i), '7'], trace='transactions-%s.ndjson' % i) for i in range(7)],
    traces=[dict(module='TraceTransactions', trace='transactions-%s.ndjson' % i) for i in range(7)])

CHECKS['C32'] = dict(
    level='model_checking', technique=TLA,
    note='TLC checks synchronisation step by step (two clients in any interleaving, faults and crashes anywhere; in the end everything is stored) '
         'and generates all short schedules; these, random longer ones, and older records from elsewhere run with the real downloader and exporter '
         'against an emulated web service and an emulated MySQL server; TLC judges each history against spec/Sync.tla.',
    generators=[dict(module='MCSync', cfg='MCSyncGen.cfg', thorough_cfg='MCSyncGenBig.cfg', out='sync.behaviours')],
    models=[dict(module='MCSync', cfg='MCSync.cfg', thorough_cfg='MCSyncBig.cfg')],
    drivers=[dict(driver='sync.py', args=['sync.behaviours', str(i), '7'], trace='sync-%s.ndjson' % i) for i in range(7)],
    traces=[dict(module='TraceSync', trace='sync-%s.ndjson' % i) for i in range(7)])

CHECKS['C35'] = dict(
    level='model_checking', technique=TLA,
    note='TLC checks the importing of files by two clients in any interleaving with crashes (in the end everything is stored once) and generates all '
         'short schedules; a sample of these and random ones run with the real importer and exporter on generated files against an emulated MySQL '
         'server; TLC judges rows against the bytes (spec/Files.tla, spec/Codec.tla), summaries and rain events against the rows.',
    generators=[dict(module='MCImport', cfg='MCImportGen.cfg', thorough_cfg='MCImportGenBig.cfg', out='import.behaviours')],
    models=[dict(module='MCImport', cfg='MCImport.cfg', thorough_cfg='MCImportBig.cfg')],
    drivers=[dict(driver='wlkimport.py', args=['import.behaviours', str(i), '7'], trace='import-%s.ndjson' % i) for i in range(7)],
    traces=[dict(module='TraceImport', trace='import-%s.ndjson' % i) for i in range(7)])
CHECKS['C36'] = dict(
    level='model_checking', technique=TLA,
    note='TLC checks every order of foreground polls, background sessions (ended, stopped, failing, cut off) and updates (each packet is asked for at '
         'most once, in order, none is lost silently) and generates them; a sample of these and long random ones run with the real poller and exporter '
         'between an emulated console and an emulated service; TLC judges every request against the packet bytes (spec/Live.tla, Codec, Updates).',
    generators=[dict(module='MCLive', cfg='MCLiveGen.cfg', out='live.behaviours')],
    models=[dict(module='MCLive', cfg='MCLive.cfg', thorough_cfg='MCLiveBig.cfg')],
    drivers=[dict(driver='live.py', args=['live.behaviours', str(i), '4'], trace='live-%s.ndjson' % i) for i in range(4)],
    traces=[dict(module='TraceLive', trace='live-%s.ndjson' % i) for i in range(4)])
CHECKS['C37'] = dict(
    level='model_checking', technique=TLA,
    note='TLC checks every short history of changing, copying and nesting records on a model of objects and references (changes show exactly where '
         'the record is reached; deep copies share nothing) and generates them; these and random ones run on records made and decoded by the real '
         'classes; TLC judges contents, identities and outcomes after every step against spec/Record.tla.',
    generators=[dict(module='MCRecord', cfg='MCRecordGen.cfg', thorough_cfg='MCRecordGen4.cfg', out='values.behaviours')],
    models=[dict(module='MCRecord', cfg='MCRecord.cfg', thorough_cfg='MCRecordBig.cfg')],
    drivers=[dict(driver='values.py', args=['values.behaviours'], trace='values.ndjson')],
    traces=[dict(module='TraceRecord', trace='values.ndjson')])
