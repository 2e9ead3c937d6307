"""PostgreSQL: a private server for the run, and operations on it (spec/OpsPg.tla).

The server runs as an unprivileged user in a scratch directory and listens on a unix socket there; what the database holds
is read through a connection of the harness, which sees committed data only.
"""
import atexit, glob, os, shutil, signal, subprocess, sys, tempfile, time
from values import V, NULL, enc, dec

DROP = 65534
BINS = sorted(glob.glob("/usr/lib/postgresql/*/bin"))[-1:]
AFF = {"text": "text", "double precision": "float", "integer": "integer", "boolean": "bool", "timestamp without time zone": "timestamp"}


def _drop():
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(DROP)
        os.setuid(DROP)


class Server:
    def __enter__(self):
        if not BINS:
            raise RuntimeError("no PostgreSQL server here")
        self.dir = tempfile.mkdtemp(prefix="tpg.", dir="/tmp")
        os.chmod(self.dir, 0o755)
        data, sock = os.path.join(self.dir, "data"), os.path.join(self.dir, "s")
        for d in (data, sock):
            os.mkdir(d)
            if os.getuid() == 0:
                os.chown(d, DROP, DROP)
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "TZ": "UTC", "HOME": self.dir}
        self.log = open(os.path.join(self.dir, "log"), "w")
        kw = dict(preexec_fn=_drop, env=env, stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, cwd="/")
        subprocess.run([BINS[0] + "/initdb", "-D", data, "-A", "trust", "-U", "postgres", "-E", "UTF8", "--no-sync", "--locale=C.UTF-8"],
                       check=True, timeout=120, **kw)
        self.p = subprocess.Popen(
            [BINS[0] + "/postgres", "-D", data, "-k", sock, "-c", "listen_addresses=", "-c", "fsync=off", "-c", "synchronous_commit=off",
             "-c", "full_page_writes=off", "-c", "lock_timeout=20s", "-c", "statement_timeout=40s", "-c", "max_connections=100",
             "-c", "shared_buffers=32MB", "-c", "autovacuum=off", "-c", "timezone=UTC", "-c", "log_min_messages=fatal",
             "-c", "log_min_error_statement=fatal", "-c", "max_wal_size=256MB"], **kw)
        os.environ["VP_PG"] = sock
        atexit.register(self.stop)
        import psycopg2
        for i in range(300):
            try:
                psycopg2.connect(host=sock, user="postgres", dbname="postgres").close()
                return self
            except psycopg2.OperationalError:
                if self.p.poll() is not None:
                    break
                time.sleep(0.1)
        with open(self.log.name) as f:
            raise RuntimeError("PostgreSQL does not start: " + f.read()[-1500:])

    def stop(self):
        p, self.p = getattr(self, "p", None), None
        if p:
            p.send_signal(signal.SIGQUIT)
            try:
                p.wait(timeout=20)
            except subprocess.TimeoutExpired:
                p.kill()
            self.log.close()
            shutil.rmtree(self.dir, ignore_errors=True)

    def __exit__(self, *a):
        self.stop()


_own = {}
_n = [0]


def own():
    """the harness's connection to this process's database"""
    import psycopg2
    k = os.getpid()
    if k not in _own:
        db = "w%d" % k
        c = psycopg2.connect(host=os.environ["VP_PG"], user="postgres", dbname="postgres")
        c.autocommit = True
        for i in range(20):
            try:
                c.cursor().execute("create database " + db)
                break
            except psycopg2.Error:       # others are copying the template
                time.sleep(0.1)
        c.close()
        c = psycopg2.connect(host=os.environ["VP_PG"], user="postgres", dbname=db)
        c.autocommit = True
        _own[k] = (c, db)
    return _own[k]


def q(sql, *a):
    with own()[0].cursor() as cur:
        cur.execute(sql, a or None)
        return cur.fetchall() if cur.description else []


def new_schema():
    _n[0] += 1
    return "vp%d" % _n[0]


def drop_schema(n):
    q('drop schema if exists "%s" cascade' % n)


def project(sid, m):
    n = m["pg"]
    r = {"id": sid, "fmt": "pg", "exists": False, "hdr": True, "schema": True, "tabs": [], "shape": "ok", "fp": ""}
    r["exists"] = bool(q("select 1 from pg_namespace where nspname = %s", n))
    if not r["exists"]:
        return r
    tabs = {}
    for (t,) in q("select relname from pg_class c join pg_namespace s on s.oid = c.relnamespace where s.nspname = %s and relkind = 'r'", n):
        tabs[t] = {"name": t, "form": "cols", "cols": [], "aff": [], "rows": [], "nn": [], "pk": [], "fks": [], "dfl": []}
    for t, c, ty, nn, d in q("""select c.relname, a.attname, format_type(a.atttypid, a.atttypmod), a.attnotnull, pg_get_expr(d.adbin, d.adrelid)
          from pg_attribute a join pg_class c on c.oid = a.attrelid join pg_namespace s on s.oid = c.relnamespace
          left join pg_attrdef d on d.adrelid = a.attrelid and d.adnum = a.attnum
          where s.nspname = %s and c.relkind = 'r' and a.attnum > 0 and not a.attisdropped order by a.attnum""", n):
        x = tabs[t]
        x["cols"].append(c)
        x["aff"].append(AFF.get(ty, ty))
        x["nn"].append(bool(nn))
        x["dfl"].append(enc(q("select " + d)[0][0]) if d else NULL)
    for t, kind, a, ft, b in q("""select c.relname, k.contype, (select array_agg(x.attname::text order by i.o) from unnest(k.conkey) with ordinality i(n, o)
             join pg_attribute x on x.attrelid = k.conrelid and x.attnum = i.n), g.relname,
             (select array_agg(x.attname::text order by i.o) from unnest(k.confkey) with ordinality i(n, o)
             join pg_attribute x on x.attrelid = k.confrelid and x.attnum = i.n)
          from pg_constraint k join pg_class c on c.oid = k.conrelid join pg_namespace s on s.oid = c.relnamespace
          left join pg_class g on g.oid = k.confrelid where s.nspname = %s order by k.conname""", n):
        if kind == "p":
            tabs[t]["pk"] = a
        elif kind == "f":
            tabs[t]["fks"].append({"ft": ft, "m": [[x, y] for x, y in zip(a, b)]})
    for t, x in tabs.items():
        x["rows"] = [[enc(c) for c in row] for row in q('select * from "%s"."%s" order by ctid' % (n, t))]
    r["tabs"] = [tabs[t] for t in sorted(tabs)]
    r["fp"] = str(hash(repr(r["tabs"])) % 10 ** 12)
    return r


class PgOps:
    """mixed into World"""

    def pg_connect(self, how):
        """what callers pass as engine: an engine, a connection, or a connection that has to be committed"""
        import sqlalchemy as sa
        from sqlalchemy.pool import NullPool
        url = "postgresql+psycopg2://postgres@/%s?host=%s" % (own()[1], os.environ["VP_PG"])
        eng = sa.create_engine(url, poolclass=NullPool, future=(how == "future"))
        return eng, (eng if how == "engine" else eng.connect())

    def pg_with(self, e, fn):
        eng, con = self.pg_connect(e["how"])
        try:
            return fn(con)
        finally:
            if con is not eng:
                con.close()
            eng.dispose()

    def op_pgschema(self, e):
        f, n = self.F[e["f"]], self.S[e["s"]]["pg"]
        forced = {(t, fl): ty for t, fl, ty in e["forced"]}
        kw = {} if e["anc"] else {"include_ancillary_info": False}
        self.pg_with(e, lambda con: f.pgsql.write_schema(con, n, **(dict(kw, forced_field_types=forced) if forced or e["how"] == "conn" else kw)))

    def op_pgput(self, e):
        """tables and rows somebody else put there"""
        n = self.S[e["s"]]["pg"]
        q('create schema if not exists "%s"' % n)
        there = {x for x, in q("select relname from pg_class c join pg_namespace s on s.oid = c.relnamespace where s.nspname = %s", n)}
        for t in e["tabs"]:
            if not t["create"] and t["name"] not in there:      # the schema was refused
                continue
            name = '"%s"."%s"' % (n, t["name"])
            if t["create"]:
                q("create table %s (%s)" % (name, ", ".join('"%s" %s' % ct for ct in zip(t["cols"], t["types"]))))
            for c, ty in t.get("add", []):
                q('alter table %s add column "%s" %s' % (name, c, ty))
            if t.get("drop"):
                q("drop table %s cascade" % name)
                continue
            for row in t["rows"]:
                q("insert into %s (%s) values (%s)" % (name, ", ".join('"%s"' % c for c in t["cols"]), ", ".join(["%s"] * len(row))),
                  *[dec(c) for c in row])

    def op_pgwrite(self, e):
        f, d, fl = self.fo(e)
        n = self.S[e["s"]]["pg"]
        kw = {}
        if e["pol"] or e["usepol"]:
            kw["pre_existing_rows"] = {t: p for t, p in e["pol"]}
        if e["active"]:
            kw["active_fld"] = e["active"]
        self.pg_seen = {"calls": [], "ins": [], "outs": []}
        if fl == "pan" and e.get("prog", -1) >= 0:
            kw["progress"] = self.pg_progress(e["prog"])
        if fl == "pan" and e.get("ctx"):
            kw["table_specific_context_manager"] = {t: self.pg_manager(t) for t in e["ctx"]}
        if fl == "tic" and e["dsn"]:
            c = {"host": os.environ["VP_PG"], "user": "postgres", "dbname": own()[1]}
            kw["dsn"] = c if e["dsn"] == "dict" else " ".join("%s=%s" % x for x in c.items())
        self.pg_with(e, lambda con: f.pgsql.write_data(d, con, n, **kw))
        return self.pg_seen

    pg_seen = {"calls": [], "ins": [], "outs": []}

    def blank_pgwrite(self):
        return self.pg_seen

    def pg_progress(self, stop):
        """a Progress that asks to stop at its stop-th call (0: never)"""
        from ticdat import Progress
        seen = self.pg_seen["calls"]

        class P(Progress):
            def numerical_progress(self, theme, progress):
                Progress.numerical_progress(self, theme, progress)
                seen.append(int(round(progress * 1000)))
                return len(seen) != stop
        return P(quiet=True)

    def pg_manager(self, t):
        seen = self.pg_seen

        class M(object):
            def __enter__(self):
                seen["ins"].append(t)

            def __exit__(self, *a):
                seen["outs"].append(t)
        return M

    def op_pgread(self, e):
        f, n = self.F[e["f"]], self.S[e["s"]]["pg"]
        kw = {"active_fld": e["active"]} if e["active"] else {}
        from ticdat import PanDatFactory
        if isinstance(f, PanDatFactory):
            r = self.pg_with(e, lambda con: f.pgsql.create_pan_dat(con, n, **kw))
            self.reg(e["o2"], e["f"], r, "pan")
        else:
            if e["freeze"]:
                kw["freeze_it"] = True
            r = self.pg_with(e, lambda con: f.pgsql.create_tic_dat(con, n, **kw))
            self.reg(e["o2"], e["f"], r, "tic", frozen=bool(e["freeze"]))

    def blank_pgdup(self):
        return {"dups": []}

    def op_pgdup(self, e):
        from world import split_key
        f, n = self.F[e["f"]], self.S[e["s"]]["pg"]
        kw = {"active_fld": e["active"]} if e["active"] else {}
        r = self.pg_with(e, lambda con: f.pgsql.find_duplicates(con, n, **kw))
        return {"dups": [{"t": t, "k": [enc(x) for x in split_key(k, len(f.primary_key_fields[t]))], "n": int(c)}
                         for t, d in r.items() for k, c in d.items()]}
