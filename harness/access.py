"""A stand-in for pyodbc: connections to "Access" files that are SQLite databases underneath."""
import os, re, sqlite3, sys, types


class Error(Exception):
    pass


class Cursor:
    def __init__(self, con):
        self.con, self.description, self.rows = con, None, []
        self.rowcount = -1

    def execute(self, sql, *params):
        self.con.check()
        args = params[0] if len(params) == 1 and isinstance(params[0], (tuple, list)) else params
        db = self.con.db
        if not db.in_transaction:
            db.execute("BEGIN")
        try:
            c = db.execute(sql, tuple(args))
            self.description, self.rows, self.rowcount = c.description, list(c.fetchall()) if c.description else [], c.rowcount
            c.close()
        except sqlite3.Error as e:
            raise Error("%s in %s" % (e, sql))
        return self

    def executemany(self, sql, rows):
        for r in rows:
            self.execute(sql, tuple(r))

    def fetchall(self):
        out, self.rows = self.rows, []
        return out

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def fetchmany(self, n=1):
        out, self.rows = self.rows[:n], self.rows[n:]
        return out

    def __iter__(self):
        while self.rows:
            yield self.rows.pop(0)

    def commit(self):
        self.con.commit()

    def rollback(self):
        self.con.rollback()

    def close(self):
        self.rows = []

    def __enter__(self):
        return self

    def __exit__(self, kind, *_):
        if kind is None:
            self.con.commit()


class Connection:
    def __init__(self, path):
        self.db = sqlite3.connect("file:%s?mode=rw" % path, uri=True, isolation_level=None)
        self.open = True

    def check(self):
        if not self.open:
            raise Error("Attempt to use a closed connection.")

    def cursor(self):
        self.check()
        return Cursor(self)

    def execute(self, sql, *params):
        return self.cursor().execute(sql, *params)

    def commit(self):
        if self.db.in_transaction:
            self.db.execute("COMMIT")

    def rollback(self):
        if self.db.in_transaction:
            self.db.execute("ROLLBACK")

    def close(self):
        if self.open:
            self.rollback()
            self.db.close()
        self.open = False

    def __enter__(self):
        return self

    def __exit__(self, kind, *_):
        self.commit() if kind is None else self.rollback()

    def __del__(self):
        try:
            self.close()
        except Exception:
            pass


def connect(text, **_):
    m = re.search(r"DBQ=([^;]*)", text, re.I)
    if not re.search(r"Microsoft Access Driver", text) or not m or not os.path.isfile(m.group(1)):
        raise Error("no such data source: %s" % text)
    try:
        return Connection(m.group(1))
    except sqlite3.Error as e:
        raise Error(str(e))


def install():
    if "ticdat" in sys.modules:
        raise RuntimeError("ticdat is there already")
    m = types.ModuleType("pyodbc")
    m.connect, m.Error, m.Connection, m.Cursor = connect, Error, Connection, Cursor
    sys.modules["pyodbc"] = m
    sys.modules["pypyodbc"] = None      # importing it fails
