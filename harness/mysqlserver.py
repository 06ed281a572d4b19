"""A MySQL server in this process: the client/server protocol (handshake, text queries) over a socket object that answers in the
thread that sends, on top of sqlite, with what the exporter relies on from MySQL translated: the types of /repo's own mysql.sql in
strict mode (decimals rounded and bounded, unsigned, enum, year, datetime, NOT NULL, unique keys), exact sums and averages,
repeatable-read transactions without autocommit, ON DUPLICATE KEY UPDATE, backslash escapes, rollback when a connection goes.
Statements can be made to fail, or the connection to go, at a chosen point.  It judges nothing."""
import datetime
import decimal
import os
import re
import shutil
import socket
import sqlite3
import struct

import mysql.connector.network

from common import REPO

D = decimal.Decimal
SCHEMA_FILE = os.path.join(REPO, 'weatherlink', 'exporter', 'mysql.sql')
SCRATCH = os.environ.get('SCRATCH', '/tmp')


class SqlError(Exception):
    def __init__(self, code, state, text):
        Exception.__init__(self, text)
        self.code, self.state = code, state


# ways a statement may fail, one with a message that is not UTF-8
ERRORS = ((1030, 'HY000', 'Got error'), (1205, 'HY000', 'Lock wait timeout exceeded'), (1366, '22007', 'Incorrect value'), (1030, 'HY000', 'Erreur syst\xe8me'),
          (1062, '23000', 'Duplicate entry'), (1146, '42S02', 'No such table'), (1317, '70100', 'Query interrupted'))


# ---------------------------------------------------------------- types
INTEGERS = {'tinyint': 8, 'smallint': 16, 'mediumint': 24, 'int': 32, 'integer': 32, 'bigint': 64}


class Column(object):
    def __init__(self, name, kind, arguments, unsigned, null, auto):
        self.name, self.kind, self.arguments, self.unsigned, self.null, self.auto = name, kind, arguments, unsigned, null, auto
        if kind == 'decimal':
            a = [int(x) for x in arguments.split(',')] if arguments else [10, 0]
            self.scale = a[1] if len(a) > 1 else 0
            self.bound = D(10) ** (a[0] - self.scale)
            self.unit = D(1).scaleb(-self.scale)
        elif kind in INTEGERS:
            bits = INTEGERS[kind]
            self.scale = 0
            self.low, self.high = (0, 2 ** bits - 1) if unsigned else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
        elif kind == 'enum':
            self.values = re.findall(r"'((?:[^']|'')*)'", arguments)

    def affinity(self):
        if self.kind == 'decimal':
            return 'REAL' if self.scale else 'INTEGER'
        return 'INTEGER' if self.kind in INTEGERS or self.kind == 'year' else 'TEXT COLLATE NOCASE'

    def plain(self, v):
        """Whether the value needs no conversion (the common case, decided in SQL otherwise)."""
        return False

    def convert(self, v):
        if v is None:
            return None
        k = self.kind
        if k == 'decimal' or k in INTEGERS or k == 'year':
            if isinstance(v, int):
                d = D(v)
            elif isinstance(v, float):
                d = D(repr(v))
            else:
                try:
                    d = D(str(v).strip())
                except Exception:
                    raise SqlError(1366, 'HY000', "Incorrect value: '%s' for column '%s'" % (v, self.name))
            if not d.is_finite():
                raise SqlError(1264, '22003', "Out of range value for column '%s'" % self.name)
            if k == 'decimal':
                d = d.quantize(self.unit, rounding=decimal.ROUND_HALF_UP)
                if abs(d) >= self.bound or (self.unsigned and d < 0):
                    raise SqlError(1264, '22003', "Out of range value for column '%s'" % self.name)
                return float(d) if self.scale else int(d)
            d = int(d.quantize(D(1), rounding=decimal.ROUND_HALF_UP))
            if k == 'year':
                if d != 0 and not 1901 <= d <= 2155:
                    raise SqlError(1264, '22003', "Out of range value for column '%s'" % self.name)
            elif not self.low <= d <= self.high:
                raise SqlError(1264, '22003', "Out of range value for column '%s'" % self.name)
            return d
        if k == 'enum':
            for x in self.values:
                if x.lower() == str(v).lower():
                    return x
            raise SqlError(1265, '01000', "Data truncated for column '%s'" % self.name)
        if k in ('datetime', 'timestamp', 'date'):
            m = re.match(r'(\d{4})-(\d\d)-(\d\d)(?:[ T](\d\d):(\d\d):(\d\d)(\.\d+)?)?$', str(v))
            try:
                t = datetime.datetime(*[int(x or 0) for x in m.groups()[:6]])
                if m.group(7) and float(m.group(7)) >= 0.5:
                    t += datetime.timedelta(seconds=1)
            except Exception:
                raise SqlError(1292, '22007', "Incorrect datetime value: '%s' for column '%s'" % (v, self.name))
            return t.strftime('%Y-%m-%d') if k == 'date' else '%04d' % t.year + t.strftime('-%m-%d %H:%M:%S')
        if k == 'time':
            m = re.match(r'(?:\d{4}-\d\d-\d\d )?(\d+):(\d\d):(\d\d)(\.\d+)?$', str(v))
            if not m:
                raise SqlError(1292, '22007', "Incorrect time value: '%s' for column '%s'" % (v, self.name))
            return '%02d:%s:%s' % (int(m.group(1)), m.group(2), m.group(3))
        return str(v)


def schema(text):
    """{table: (columns, keys)} of CREATE TABLE statements as in mysql.sql."""
    text = re.sub(r"COMMENT\s+'(?:[^'\\]|\\.|'')*'", '', text, flags=re.I)
    text = re.sub(r'^\s*--.*$', '', text, flags=re.M)
    out = {}
    for name, body in re.findall(r'CREATE\s+TABLE\s+(?:IF\s+NOT\s+EXISTS\s+)?`?(\w+)`?\s*\((.*?)\)\s*ENGINE', text, flags=re.S | re.I):
        columns, keys = [], []
        for line in re.split(r',\s*\n', body):
            line = line.strip()
            m = re.match(r'(PRIMARY\s+KEY|UNIQUE(?:\s+(?:INDEX|KEY))?|INDEX|KEY)\s*(?:`[^`]*`|\w+)?\s*\(([^)]*)\)', line, re.I)
            if m:
                if m.group(1)[0] in 'Uu':
                    keys.append(re.findall(r'\w+', m.group(2)))
                continue
            m = re.match(r'`(\w+)`\s+(\w+)\s*(?:\(((?:[^()\']|\'[^\']*\')*)\))?(.*)$', line, re.S)
            if not m:
                raise ValueError('schema line %r' % line)
            rest = m.group(4).upper()
            columns.append(Column(m.group(1), m.group(2).lower(), m.group(3) or '', 'UNSIGNED' in rest, 'NOT NULL' not in rest,
                                  'AUTO_INCREMENT' in rest))
        out[name] = (columns, keys)
    return out


# ---------------------------------------------------------------- the database
class Sum(object):
    def __init__(self):
        self.total, self.count = D(0), 0

    def step(self, v):
        if v is not None:
            self.total += D(repr(v)) if isinstance(v, float) else D(v)
            self.count += 1

    def finalize(self):
        return float(self.total) if self.count else None


class Avg(Sum):
    scale = 4

    def step(self, v, scale=4):
        self.scale = scale
        Sum.step(self, v)

    def finalize(self):
        if not self.count:
            return None
        return float((self.total / self.count).quantize(D(1).scaleb(-self.scale), rounding=decimal.ROUND_HALF_UP))


class Database(object):
    """Tables in a scratch file; tables may be given other names ({new: original})."""
    serial = 0
    template = {}
    schemas = {}

    def __init__(self, renamed=(), text=None):
        Database.serial += 1
        self.path = os.path.join(SCRATCH, 'db-%s-%s.sqlite' % (os.getpid(), Database.serial))
        if text is None:
            with open(SCHEMA_FILE, encoding='utf-8') as f:
                text = f.read()
        if text not in Database.schemas:
            Database.schemas[text] = schema(text)
        self.tables = dict(Database.schemas[text])
        for new, original in dict(renamed).items():
            self.tables[new] = self.tables[original]
        self.scales = {c.name: c.scale for columns, _ in self.tables.values() for c in columns if c.kind == 'decimal' or c.kind in INTEGERS}
        self.converters = []            # (table index, column index) -> Column
        self.open = []
        self.log = []                   # statements executed, by all connections
        self.fault = None               # function(statement number, statement) -> None, 'error', 'deadlock', 'drop' or 'ack'
        self.count = 0
        self.refuse = False             # refuse new connections
        key = (text, tuple(sorted(dict(renamed).items())))
        if key in Database.template:
            shutil.copy(Database.template[key], self.path)
        else:
            c = self.raw()
            c.execute('PRAGMA journal_mode=WAL').fetchall()
            for table in self.tables:
                for statement in self.ddl(table):
                    c.execute(statement)
            c.execute('PRAGMA wal_checkpoint(TRUNCATE)').fetchall()
            c.close()
            Database.template[key] = self.path + '.template'
            shutil.copy(self.path, Database.template[key])
        self.watcher = None

    def ddl(self, table):
        columns, keys = self.tables[table]
        parts = []
        for c in columns:
            if c.auto:
                parts.append('"%s" INTEGER PRIMARY KEY AUTOINCREMENT' % c.name)
            else:
                parts.append('"%s" %s%s' % (c.name, c.affinity(), '' if c.null else ' NOT NULL'))
        yield 'CREATE TABLE "%s" (%s)' % (table, ', '.join(parts))
        for n, k in enumerate(keys):
            yield 'CREATE UNIQUE INDEX "%s_unique_%d" ON "%s" (%s)' % (table, n, table, ', '.join('"%s"' % x for x in k))
        auto = [c.name for c in columns if c.auto][0]
        others = [(n, c) for n, c in enumerate(columns) if not c.auto]
        t = list(self.tables).index(table)
        sets = ', '.join('"%s"=CASE WHEN NEW."%s" IS NULL THEN NULL ELSE my_convert(%d,%d,NEW."%s") END' % (
            c.name, c.name, t, n, c.name) for n, c in others)
        for event in ('INSERT', 'UPDATE'):
            yield 'CREATE TRIGGER "%s_%s" AFTER %s ON "%s" BEGIN UPDATE "%s" SET %s WHERE "%s"=NEW."%s"; END' % (
                table, event, event, table, table, sets, auto, auto)

    def raw(self):
        c = sqlite3.connect(self.path, isolation_level=None, timeout=0.05)
        c.execute('PRAGMA synchronous=OFF')
        c.execute('PRAGMA recursive_triggers=OFF')
        columns = [self.tables[t][0] for t in self.tables]
        errors = []

        def convert(t, n, v):
            try:
                return columns[t][n].convert(v)
            except SqlError as e:
                errors.append(e)
                raise
        c.create_function('my_convert', 3, convert)
        c.create_function('if', 3, lambda a, b, d: b if a else d)
        for n, (name, part) in enumerate((('year', slice(0, 4)), ('month', slice(5, 7)), ('day', slice(8, 10)), ('dayofmonth', slice(8, 10)),
                                          ('hour', slice(11, 13)), ('minute', slice(14, 16)))):
            c.create_function(name, 1, lambda v, part=part: None if v is None else int(v[part] or 0))
        moment = lambda v: datetime.datetime.strptime((v + ' 00:00:00')[:19], '%Y-%m-%d %H:%M:%S')
        units = {'SECOND': 1, 'MINUTE': 60, 'HOUR': 3600, 'DAY': 86400, 'WEEK': 604800}
        add = lambda sign: lambda v, n, unit: None if v is None or n is None else str(moment(v) + datetime.timedelta(seconds=sign * int(n) * units[unit.upper()]))
        c.create_function('date_add', 3, add(1))
        c.create_function('date_sub', 3, add(-1))
        c.create_function('timestampdiff', 3, lambda unit, a, b: None if None in (a, b) else int((moment(b) - moment(a)).total_seconds() / units[unit.upper()]))
        c.create_function('datediff', 2, lambda a, b: None if None in (a, b) else (moment(a).date() - moment(b).date()).days)
        c.create_function('weekday', 1, lambda v: None if v is None else moment(v).weekday())
        c.create_function('dayofyear', 1, lambda v: None if v is None else moment(v).timetuple().tm_yday)
        c.create_function('yearweek', 2, lambda v, mode: None if v is None else moment(v).isocalendar()[0] * 100 + moment(v).isocalendar()[1])
        c.create_function('week', 2, lambda v, mode: None if v is None else moment(v).isocalendar()[1])
        c.create_function('weekofyear', 1, lambda v: None if v is None else moment(v).isocalendar()[1])
        c.create_function('dayofweek', 1, lambda v: None if v is None else moment(v).isoweekday() % 7 + 1)
        c.create_function('last_day', 1, lambda v: None if v is None else str(
            (moment(v).replace(day=28) + datetime.timedelta(days=4)).replace(day=1) - datetime.timedelta(days=1))[:10])
        c.create_function('to_days', 1, lambda v: None if v is None else moment(v).toordinal() + 365)
        c.create_function('makedate', 2, lambda y, n: None if None in (y, n) else str(datetime.date(int(y), 1, 1) + datetime.timedelta(days=int(n) - 1)))
        shape = lambda f: re.sub('%([a-zA-Z])', lambda m: '%' + {'c': 'm', 'e': 'd', 'i': 'M', 's': 'S', 'T': 'H:%M:%S', 'k': 'H'}.get(m.group(1), m.group(1)), f)

        def str_to_date(v, f):
            try:
                t = datetime.datetime.strptime(v, shape(f))
            except (TypeError, ValueError):
                return None
            return str(t) if re.search('%[HhiklsST]', f) else str(t)[:10]
        c.create_function('str_to_date', 2, str_to_date)
        c.create_function('date_format', 2, lambda v, f: None if v is None else re.sub(
            '%([a-zA-Z])', lambda m: {'c': str(moment(v).month), 'e': str(moment(v).day), 'k': str(moment(v).hour)}.get(m.group(1))
            or moment(v).strftime(shape(m.group(0))), f))
        c.create_function('left', 2, lambda v, n: None if v is None else str(v)[:int(n)])
        c.create_function('right', 2, lambda v, n: None if v is None else str(v)[-int(n):])
        c.create_function('lpad', 3, lambda v, n, f: None if v is None else str(v)[:int(n)].rjust(int(n), f))
        c.create_function('field', -1, lambda x, *a: a.index(x) + 1 if x in a else 0)
        c.create_function('mod', 2, lambda a, b: None if None in (a, b) or not b else a - b * int(a / b))
        given = []

        def last_insert_id(v):
            given.append(v)
            return v
        c.create_function('last_insert_id', 1, last_insert_id)
        c.create_function('any_value', 1, lambda v: v)
        c.create_function('greatest', -1, lambda *a: None if None in a else max(a))
        c.create_function('least', -1, lambda *a: None if None in a else min(a))
        c.create_function('concat', -1, lambda *a: None if None in a else ''.join(str(x) for x in a))
        c.create_aggregate('sum', 1, Sum)
        c.create_aggregate('avg', 1, Avg)
        c.create_aggregate('my_avg', 2, Avg)
        self.errors = errors
        c_errors = errors
        self.last_errors = c_errors
        return Raw(c, errors, given)

    def look(self, statement, arguments=()):
        """What another connection sees."""
        if self.watcher is None:
            self.watcher = self.raw()
        return self.watcher.execute(statement, arguments).fetchall()

    def drop_all(self):
        for c in list(self.open):
            c.die()

    def close(self):
        self.drop_all()
        if self.watcher is not None:
            self.watcher.close()
        for suffix in ('', '-wal', '-shm'):
            try:
                os.remove(self.path + suffix)
            except OSError:
                pass


class Raw(object):
    def __init__(self, connection, errors, given):
        self.connection, self.errors, self.given = connection, errors, given     # given: to LAST_INSERT_ID
        self.execute, self.close = connection.execute, connection.close


# ---------------------------------------------------------------- SQL
ESCAPES = {'0': '\0', 'n': '\n', 'r': '\r', 't': '\t', 'b': '\b', 'Z': '\x1a'}
TOKEN = re.compile(r"""'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*"|`[^`]*`|[^'"`]+""", re.S)
MOMENT = re.compile(r"(\b(?:timestamp_\w+|\w+_timestamp|\w+_start)\b`?\s*(?:=|<>|!=|<=|>=|<|>|BETWEEN)\s*)'(\d{4}-\d\d-\d\d)'", re.I)


def commas(text):
    """The parts of a list in SQL."""
    parts, depth = [''], 0
    for token in re.findall(r"'(?:[^']|'')*'|.", text, re.S):
        depth += (token == '(') - (token == ')')
        if token == ',' and not depth:
            parts.append('')
        else:
            parts[-1] += token
    return parts


def translate(statement, scales):
    out = []
    for token in TOKEN.findall(statement):
        if token[0] in '\'"':
            quote = token[0]
            body = re.sub(r'\\(.)|' + quote * 2, lambda m: quote if m.group(1) is None else ESCAPES.get(m.group(1), m.group(1)), token[1:-1],
                          flags=re.S)
            out.append("'" + body.replace("'", "''") + "'")
        elif token[0] == '`':
            out.append('"' + token[1:-1] + '"')
        else:
            t = re.sub(r'\bFOR\s+UPDATE\b|\bLOCK\s+IN\s+SHARE\s+MODE\b|\bFOR\s+SHARE\b', '', token, flags=re.I)
            t = re.sub(r'\bINSERT\s+IGNORE\b', 'INSERT OR IGNORE', t, flags=re.I)
            t = t.replace('<=>', ' IS ')
            t = re.sub(r'\bINTERVAL\s+(-?\w+|%s)\s+(\w+)', r"\1, '\2'", t, flags=re.I)
            t = re.sub(r'\bTIMESTAMPDIFF\s*\(\s*(\w+)', r"TIMESTAMPDIFF('\1'", t, flags=re.I)
            t = re.sub(r'^(\s*INSERT\s+INTO\s+\S+)\s+SET\b', r'\1 /*set*/', t, flags=re.I)
            t = re.sub(r'\bON\s+DUPLICATE\s+KEY\s+UPDATE\b', 'ON CONFLICT DO UPDATE SET', t, flags=re.I)
            out.append(t)
    s = ''.join(out).strip().rstrip(';').strip()
    if '/*set*/' in s:
        head, tail = s.split('/*set*/', 1)
        names, values = zip(*[[y.strip() for y in x.split('=', 1)] for x in commas(tail)])
        s = '%s (%s) VALUES (%s)' % (head, ', '.join(names), ', '.join(values))
    if 'ON CONFLICT DO UPDATE' in s:
        head, tail = s.split('ON CONFLICT DO UPDATE SET', 1)
        s = head + 'ON CONFLICT DO UPDATE SET' + re.sub(r'\bVALUES\s*\(\s*("?\w+"?)\s*\)', r'excluded.\1', tail, flags=re.I)
    if re.match(r'\s*SELECT', s, re.I):
        s = re.sub(r'\bavg\s*\(\s*("?)(?:\w+\.)?(\w+)\1\s*\)',
                   lambda m: 'my_avg(%s, %d)' % (m.group(2), scales.get(m.group(2), 0) + 4), s, flags=re.I)
        s = MOMENT.sub(r"\1'\2 00:00:00'", s)
    return s


# ---------------------------------------------------------------- protocol
OLD, LONG_FLAG, WITH_DB, PROTOCOL41, TRANSACTIONS, SECURE, PLUGIN = 1, 4, 8, 512, 8192, 32768, 1 << 19
CAPABILITIES = OLD | 2 | LONG_FLAG | WITH_DB | PROTOCOL41 | TRANSACTIONS | SECURE | PLUGIN


def lenenc(n):
    if n < 251:
        return bytes((n,))
    if n < 1 << 16:
        return b'\xfc' + struct.pack('<H', n)
    if n < 1 << 24:
        return b'\xfd' + struct.pack('<I', n)[:3]
    return b'\xfe' + struct.pack('<Q', n)


def string(b):
    return lenenc(len(b)) + b


class Session(object):
    """One connection; has the socket methods the connector uses."""
    family = socket.AF_INET
    current = None

    def __init__(self, *_):
        self.incoming, self.outgoing, self.dead, self.closed, self.last = bytearray(), bytearray(), False, False, 0
        self.db = None

    # the socket
    def settimeout(self, _):
        pass

    def setsockopt(self, *_):
        pass

    def connect(self, address):
        self.db = Session.current
        if self.db is None or self.db.refuse:
            raise ConnectionRefusedError(111, 'Connection refused')
        self.sql = self.db.raw()
        self.autocommit, self.transaction, self.wrote, self.state = True, False, False, 'handshake'
        self.db.open.append(self)
        self.send_packet(0, b'\x0a' + b'8.0.36\0' + struct.pack('<I', len(self.db.open)) + b'12345678\0' +
                         struct.pack('<H', CAPABILITIES & 0xFFFF) + b'\x2d' + struct.pack('<H', 2) + struct.pack('<H', CAPABILITIES >> 16) +
                         b'\x15' + b'\0' * 10 + b'123456789012\0' + b'mysql_native_password\0')

    def sendall(self, data):
        if self.closed:
            raise OSError(9, 'Bad file descriptor')
        if self.dead:
            raise BrokenPipeError(32, 'Broken pipe')
        self.incoming += data
        while len(self.incoming) >= 4 and not self.dead:
            size = self.incoming[0] | self.incoming[1] << 8 | self.incoming[2] << 16
            if len(self.incoming) < 4 + size:
                break
            number, body = self.incoming[3], bytes(self.incoming[4:4 + size])
            del self.incoming[:4 + size]
            self.packet(number, body)

    send = sendall

    def recv_into(self, view, size=0):
        if self.closed:
            raise OSError(9, 'Bad file descriptor')
        size = size or len(view)
        if not self.outgoing:
            if self.dead:
                return 0
            raise socket.timeout('timed out')
        n = min(size, len(self.outgoing))
        view[:n] = self.outgoing[:n]
        del self.outgoing[:n]
        return n

    def shutdown(self, *_):
        self.die()

    def close(self):
        self.closed = True
        self.die()

    def fileno(self):
        return -1

    def die(self):
        """The connection goes: what it did not commit is rolled back."""
        if self.db is not None and not self.dead:
            self.dead = True
            if self.transaction:
                self.sql.execute('ROLLBACK')
            self.sql.close()
            self.db.open.remove(self)

    # packets
    def send_packet(self, number, body):
        self.outgoing += struct.pack('<I', len(body))[:3] + bytes((number & 255,)) + body

    def status(self):
        return (1 if self.transaction else 0) | (2 if self.autocommit else 0)

    def ok(self, number, affected=0, last=0):
        self.send_packet(number, b'\0' + lenenc(affected) + lenenc(last) + struct.pack('<HH', self.status(), 0))

    def error(self, number, e):
        self.send_packet(number, b'\xff' + struct.pack('<H', e.code) + b'#' + e.state.encode() + str(e).encode('utf-8' if str(e).isascii() else 'latin-1', 'replace')[:400])

    def eof(self, number):
        self.send_packet(number, b'\xfe' + struct.pack('<HH', 0, self.status()))

    def packet(self, number, body):
        if self.state == 'handshake':
            self.state = 'ready'
            return self.ok(number + 1)
        command, argument = body[0], body[1:]
        number = 1
        if command == 1:            # quit
            return self.die()
        if command in (2, 14, 27, 31):      # use a database, ping, set option, reset
            if command == 31:
                self.end(False)
            return self.ok(number) if command != 27 else self.eof(number)
        if command != 3:
            return self.error(number, SqlError(1047, '08S01', 'Unknown command'))
        text = argument.decode('utf-8')
        db = self.db
        fault = None
        if not re.match(r'\s*(SET|SELECT\s+@@)', text, re.I):
            db.count += 1
            db.log.append(text)
            fault = db.fault(db.count, text) if db.fault else None
        if fault == 'drop':
            return self.die()
        if fault in ('error', 'deadlock'):
            if fault == 'deadlock':
                self.end(False)
            return self.error(number, SqlError(1213, '40001', 'Deadlock found') if fault == 'deadlock' else SqlError(*ERRORS[db.count % len(ERRORS)]))
        try:
            result = self.query(text)
        except SqlError as e:
            if fault == 'ack':
                return self.die()
            return self.error(number, e)
        if fault == 'ack':
            return self.die()
        if result[0] == 'ok':
            return self.ok(number, *result[1:])
        self.rows(number, *result[1:])

    # queries
    def end(self, commit):
        if self.transaction:
            self.sql.execute('COMMIT' if commit else 'ROLLBACK')
        self.transaction = self.wrote = False

    def query(self, text):
        s = translate(text, self.db.scales)
        word = re.match(r'\s*(\w+)', s)
        word = word.group(1).upper() if word else ''
        if word == 'SET':
            m = re.search(r'autocommit\s*=\s*(\w+)', s, re.I)
            if m:
                on = m.group(1).upper() in ('1', 'ON', 'TRUE')
                if on:
                    self.end(True)
                self.autocommit = on
            return ('ok',)
        if word == 'COMMIT':
            self.end(True)
            return ('ok',)
        if word == 'ROLLBACK' and not re.search(r'\bTO\b', s, re.I):
            self.end(False)
            return ('ok',)
        if word in ('BEGIN', 'START'):
            self.end(True)
            self.sql.execute('BEGIN')
            self.transaction = True
            return ('ok',)
        if word == 'SELECT' and '@@' in s:
            if 'sql_mode' in s.lower():
                return ('rows', ['x'], [('ONLY_FULL_GROUP_BY,STRICT_TRANS_TABLES,NO_ZERO_IN_DATE,NO_ZERO_DATE,NO_ENGINE_SUBSTITUTION',)])
            return ('rows', ['x'], [(self.autocommit and 1 or 0,)])
        if word == 'SHOW':
            return ('rows', ['x'], [])
        if re.match(r'SELECT\s+LAST_INSERT_ID\s*\(\s*\)$', s, re.I):
            return ('rows', ['x'], [(self.last,)])
        writing = word in ('INSERT', 'UPDATE', 'DELETE', 'REPLACE')
        if not (writing or word in ('SELECT', 'SAVEPOINT', 'RELEASE', 'ROLLBACK', 'WITH')):
            raise SqlError(1064, '42000', 'You have an error in your SQL syntax: %s' % s[:60])
        if not self.transaction and not self.autocommit:
            self.sql.execute('BEGIN')
            self.transaction = True
        del self.sql.errors[:], self.sql.given[:]
        try:
            try:
                c = self.sql.execute(s)
            except sqlite3.OperationalError as e:
                # writing after reading an older snapshot, which MySQL allows
                if not (writing and self.transaction and not self.wrote and 'locked' in str(e)):
                    raise
                self.sql.execute('ROLLBACK')
                self.transaction = False
                self.sql.execute('BEGIN IMMEDIATE')
                self.transaction = True
                c = self.sql.execute(s)
            if c.description is None:
                if writing and self.transaction:
                    self.wrote = True
                number = self.sql.given[-1] if self.sql.given else c.lastrowid or 0 if word in ('INSERT', 'REPLACE') else 0
                self.last = number or self.last
                return ('ok', max(c.rowcount, 0), number)
            return ('rows', [d[0] for d in c.description], c.fetchall())
        except sqlite3.Error as e:
            raise self.problem(e)

    def problem(self, e):
        if self.sql.errors:
            return self.sql.errors[-1]
        text = str(e)
        if 'UNIQUE' in text:
            return SqlError(1062, '23000', 'Duplicate entry: ' + text)
        if 'NOT NULL' in text:
            return SqlError(1048, '23000', 'Column cannot be null: ' + text)
        if 'no such column' in text or 'has no column' in text:
            return SqlError(1054, '42S22', text)
        if 'no such table' in text:
            return SqlError(1146, '42S02', text)
        if 'locked' in text:
            return SqlError(1205, 'HY000', 'Lock wait timeout exceeded')
        return SqlError(1064, '42000', 'You have an error in your SQL syntax: ' + text)

    def rows(self, number, names, rows):
        self.send_packet(number, lenenc(len(names)))
        for n, name in enumerate(names):
            number += 1
            kind, charset, flags = kind_of([r[n] for r in rows])
            b = name.encode('utf-8')
            self.send_packet(number, string(b'def') + string(b'') * 3 + string(b) * 2 + b'\x0c' + struct.pack('<HIBHB', charset, 255, kind, flags, 0)
                             + b'\0\0')
        number += 1
        self.eof(number)
        for r in rows:
            number += 1
            self.send_packet(number, b''.join(b'\xfb' if v is None else string(render(v)) for v in r))
        self.eof(number + 1)


PATTERNS = ((re.compile(r'\d{4}-\d\d-\d\d \d\d:\d\d:\d\d$'), 12), (re.compile(r'\d{4}-\d\d-\d\d$'), 10), (re.compile(r'\d\d+:\d\d:\d\d$'), 11))


def kind_of(values):
    kind = (253, 45, 0)
    for v in values:
        if v is None:
            continue
        if isinstance(v, float):
            return (246, 63, 128)
        if isinstance(v, int):
            kind = (8, 63, 128)
            continue        # a float may follow
        for p, k in PATTERNS:
            if p.match(v):
                return (k, 63, 128)
        return (253, 45, 0)
    return kind


def render(v):
    if isinstance(v, float):
        return format(D(repr(v)), 'f').encode()
    if isinstance(v, int):
        return b'%d' % v
    return v.encode('utf-8')


class _Sockets(object):
    def __getattr__(self, name):
        return getattr(socket, name)

    socket = Session


def serve(db):
    """From now on every connection made by the connector reaches this database."""
    Session.current = db
    mysql.connector.network.socket = _Sockets()
    return db
