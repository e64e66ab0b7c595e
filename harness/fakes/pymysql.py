"""A stand-in for the MySQL driver that keeps its databases in sqlite files (host name = directory)."""
import os
import sqlite3

LOG = []
ROOT = [None]


class Error(Exception):
    pass


class DatabaseError(Error):
    pass


class Cursor(object):
    def __init__(self, conn):
        self.cur = conn.db.cursor()

    def execute(self, sql, args=None):
        if args is not None and not isinstance(args, (tuple, list)):
            args = (args,)
        LOG.append((sql, args))
        try:
            self.cur.execute(sql.replace("%s", "?"), tuple(args or ()))
        except sqlite3.Error as e:
            raise DatabaseError(*e.args)
        if sql.lstrip().upper().startswith("SELECT"):
            self.rows = self.cur.fetchall()
            return len(self.rows)
        self.rows = []
        return self.cur.rowcount

    def fetchall(self):
        out, self.rows = self.rows, []
        return tuple(out)

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def close(self):
        self.cur.close()


class Connection(object):
    def __init__(self, db):
        self.db = sqlite3.connect(os.path.join(ROOT[0], db))

    def cursor(self):
        return Cursor(self)

    def commit(self):
        self.db.commit()

    def rollback(self):
        self.db.rollback()

    def close(self):
        # what was not committed is gone
        self.db.close()


def connect(host=None, port=None, user=None, passwd=None, password=None, db=None, database=None, **kw):
    return Connection(db or database)
