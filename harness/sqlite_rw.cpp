// C04: the SQLite wrapper against a model of what was written.
#include "SQLite.hpp"
#include "vh.hpp"
#include <chrono>
#include <optional>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using namespace vh;

struct Row { int i; double d; std::string s; };

static double anydouble(Rng &r) {
    switch (r.i(0, 6)) {
    case 0: return r.normal();
    case 1: return r.pick(std::vector<double>{0., -0., 1., -1., .1, 1e300, -1e-300, 4.9e-324, 1.7976931348623157e308, 1. / 3., std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 9007199254740993., 2147483648.});
    case 2: return r.i(-1000, 1000);
    default: {
        double d;
        do {
            unsigned long b = r.g();
            std::memcpy(&d, &b, 8);
        } while (std::isnan(d));
        return d;
    }
    }
}
static int anyint(Rng &r) { return r.b(.3) ? r.pick(std::vector<int>{0, 1, -1, 2147483647, -2147483647 - 1, 255, 65536}) : (int)(unsigned)r.g(); }
static std::string anytext(Rng &r) {
    std::string s;
    long L = r.b(.1) ? r.i(500, 5000) : r.i(0, 20);
    int mode = (int)r.i(0, 4);
    for (long k = 0; k < L; ++k) {
        if (mode == 0) s += (char)r.i('a', 'z');
        else if (mode == 1) s += "'\"%_;-- \n\t\\?1"[r.i(0, 12)];
        else if (mode == 2) s += r.pick(std::vector<std::string>{"ä", "漢", "\U0001F600", "x", "é"});
        else if (mode == 3) s += (char)r.i(1, 127);
        else s += r.b(.1) ? '\0' : (char)r.i(32, 126);
    }
    return s;
}
static bool same(double a, double b) { return a == b; }

static void check_rows(std::string const &how, std::vector<Row> const &got, std::vector<Row> const &want, std::string const &c) {
    if (got.size() != want.size()) {
        out().violation(how + ":row-count", str("got ", got.size(), " rows, the database holds ", want.size()), c);
        return;
    }
    for (size_t k = 0; k < got.size(); ++k)
        if (got[k].i != want[k].i || !same(got[k].d, want[k].d) || got[k].s != want[k].s)
            out().violation(how + ":row-value", str("row ", k, ": got ", got[k].i, ",", got[k].d, ",", got[k].s.size(), "chars expected ", want[k].i, ",", want[k].d, ",", want[k].s.size(), "chars"), c);
}

static void roundtrip(Rng &r, long it) {
    sqlite::handle db(r.b(.8) ? std::string(":memory:") : scratch() + str("/rt", it, ".db"));
    sqlite::statement stmt(db);
    stmt.exec(r.b() ? "create table t (a int, b real, c text);" : "create table t (a, b, c);");
    long rows = r.b(.5) ? r.i(0, 3) : r.i(0, 40);
    std::string c = str("rows=", rows, " it=", it);
    std::vector<Row> want;
    stmt.set("insert into t values (?1,?2,?3);");
    stmt.prepare();
    for (long k = 0; k < rows; ++k) {
        Row w{anyint(r), anydouble(r), anytext(r)};
        if (k) {
            stmt.reset();
            if (r.b(.2)) stmt.prepare();
        }
        stmt.bind(1, w.i);
        stmt.bind(2, w.d);
        if (r.b())
            stmt.bind(3, w.s);
        else
            stmt.bind(3, std::string(w.s));
        if (stmt.step()) out().violation("insert-yields-row", "", c);
        want.push_back(w);
    }
    std::vector<Row> sel;
    int lo = anyint(r);
    bool filt = r.b(.4);
    for (auto const &w : want)
        if (!filt || w.i >= lo) sel.push_back(w);
    auto run = [&](std::string const &how, auto &&loop) {
        sqlite::statement q(db);
        if (r.b()) {
            q.set(filt ? "select a,b,c from t where a >= ?1 order by rowid;" : "select a,b,c from t order by rowid;");
        } else {
            std::stringstream ss;
            ss << "select a,b,c from t " << (filt ? "where a >= ?1 " : "") << "order by rowid;";
            q.set(ss);
        }
        q.prepare();
        if (filt) q.bind(1, lo);
        std::vector<Row> got;
        loop(q, got);
        check_rows(how, got, sel, c);
    };
    auto take = [](sqlite::statement &s) { return Row{s.get<int>(0), s.get<double>(1), s.get<std::string>(2)}; };
    run("while-step", [&](sqlite::statement &q, std::vector<Row> &g) {
        while (q.step()) g.push_back(take(q));
        if (!throws([&] { q.step(); })) out().violation("step-past-end", "stepping past the end raised no error", c);
        // reset and read again
        q.reset();
        g.clear();
        while (q.step()) g.push_back(take(q));
    });
    run("range-for", [&](sqlite::statement &q, std::vector<Row> &g) {
        for (auto &&x : q) {
            g.push_back(take(x));
            if (g.size() > 10000) break;
        }
    });
    run("iterator", [&](sqlite::statement &q, std::vector<Row> &g) {
        auto e = q.end();
        for (auto i = q.begin(); i != e; ++i) {
            g.push_back(take(*i));
            if (g.size() > 10000) break;
        }
    });
    out().eval(c, true);
}

static void errors(Rng &r, long it) {
    sqlite::handle db(":memory:");
    sqlite::statement s(db);
    s.exec("create table u (k int unique, v text not null, w int check (w > 0));insert into u values (1,'a',1);");
    std::vector<std::pair<std::string, std::function<void()>>> bad = {
        {"syntax-exec", [&] { s.exec("selec 1;"); }},
        {"syntax-second-exec", [&] { s.exec("select 1; selec 2;"); }},
        {"no-table", [&] { s.exec("select * from nosuch;"); }},
        {"unique-exec", [&] { s.exec("insert into u values (1,'b',1);"); }},
        {"notnull-exec", [&] { s.exec("insert into u values (2,null,1);"); }},
        {"check-exec", [&] { s.exec("insert into u values (3,'c',0);"); }},
        {"syntax-prepare", [&] { sqlite::statement q(db, "selec 1;"); q.prepare(); }},
        {"no-table-prepare", [&] { sqlite::statement q(db); q.set("insert into nosuch values (1);"); q.prepare(); q.step(); }},
        {"unprepared", [&] { sqlite::statement q(db, "select 1;"); q.step(); }},
        {"reprepare-needed", [&] { sqlite::statement q(db, "select 1;"); q.prepare(); q.set("select 2;"); q.step(); }},
        {"unique-step", [&] { sqlite::statement q(db); q.set("insert into u values (?1,'x',1);"); q.prepare(); q.bind(1, 1); q.step(); }},
        {"bind-range", [&] { sqlite::statement q(db); q.set("select ?1;"); q.prepare(); q.bind(2, 1); q.step(); }},
        {"bind-range-d", [&] { sqlite::statement q(db); q.set("select ?1;"); q.prepare(); q.bind(7, 1.5); q.step(); }},
        {"bind-range-s", [&] { sqlite::statement q(db); q.set("select ?1;"); q.prepare(); std::string t = "t"; q.bind(0, t); q.step(); }},
        {"open", [&] { sqlite::handle h(scratch() + "/no/such/dir/x.db"); }},
        {"open-ro", [&] { sqlite::handle h(scratch() + "/nosuch.db", SQLITE_OPEN_READONLY); }},
        {"abort-midway", [&] { // an error after the first row was delivered
             sqlite::statement q(db, "select abs(x) from (select 1 as x union all select -9223372036854775807-1);");
             q.prepare();
             while (q.step()) {}
         }},
        {"abort-midway-range", [&] {
             sqlite::statement q(db, "select abs(x) from (select 1 as x union all select -9223372036854775807-1);");
             q.prepare();
             for (auto &&x : q) (void)x.get<int>(0);
         }},
        {"notadb", [&] { std::string p = scratch() + "/junk.db"; std::ofstream(p) << std::string(4096, 'j'); sqlite::handle h(p); sqlite::statement q(h); q.exec("select * from sqlite_master;"); }},
        {"readonly-write", [&] { std::string p = scratch() + str("/ro", it, ".db"); { sqlite::handle h(p); sqlite::statement(h).exec("create table if not exists t(a);"); } sqlite::handle h(p, SQLITE_OPEN_READONLY); sqlite::statement q(h); q.exec("insert into t values (1);"); }},
    };
    for (auto &b : bad) {
        bool e = false;
        try {
            b.second();
        } catch (sqlite::error const &x) {
            e = true;
            if (std::string(x.what()).find("SQLite error") == std::string::npos) out().violation("error-text", x.what(), b.first);
        }
        if (!e) out().violation("error-swallowed", str("the failing statement of case ", b.first, " raised no sqlite::error"), b.first);
        // the table is unchanged and the connection still works
        sqlite::statement q(db, "select count(*), sum(k) from u;");
        q.prepare();
        if (!q.step() || q.get<int>(0) != 1 || q.get<int>(1) != 1) out().violation("failed-statement-changed-table", b.first, b.first);
        out().eval(str("error:", b.first));
    }
}

static void worker(std::string const &path, int id, int ops, unsigned long s, long &done, std::string &err) {
    std::mt19937_64 g(s);
    auto open = [&] {
        sqlite::handle a(path);
        if (g() % 2) {
            sqlite::handle b(std::move(a)); // the busy handler has to follow the object
            return b;
        }
        return a;
    };
    try {
        sqlite::handle h = open();
        std::optional<sqlite::handle> other;
        if (g() % 2) {
            other.emplace(":memory:");
            *other = std::move(h);
        }
        sqlite::handle &db = other ? *other : h;
        sqlite::statement st(db);
        st.exec("pragma synchronous=off;");
        for (int k = 0; k < ops; ++k) {
            switch (g() % 4) {
            case 0: {
                sqlite::statement q(db, "update c set v = v + 1 where id = ?1;");
                q.prepare();
                q.bind(1, (int)(g() % 3));
                q.step();
                break;
            }
            case 1:
                st.exec("update c set v = v + 1 where id = 0;");
                break;
            case 2:
                st.exec("begin immediate;");
                st.exec("update c set v = v + 1 where id = 1;");
                if (g() % 3 == 0) std::this_thread::sleep_for(std::chrono::milliseconds(g() % 15));
                st.exec("commit;");
                break;
            default: {
                st.exec("begin exclusive;");
                std::this_thread::sleep_for(std::chrono::milliseconds(g() % 10));
                sqlite::statement q(db, "update c set v = v + 1 where id = 2;");
                q.prepare();
                q.step();
                q.reset();
                st.exec("commit;");
            }
            }
            ++done;
            sqlite::statement q(db, "insert into log values (?1, ?2);");
            q.prepare();
            q.bind(1, id);
            q.bind(2, k);
            q.step();
        }
    } catch (std::exception const &e) {
        err = e.what();
    }
}

static void contention(Rng &r, long it) {
    std::string path = scratch() + str("/cont", it, ".db");
    int T = (int)r.i(2, 5), ops = (int)n(10, 40), P = r.b() ? 2 : 0;
    {
        sqlite::handle db(path);
        sqlite::statement(db).exec("create table c (id int, v int); insert into c values (0,0),(1,0),(2,0); create table log (w int, k int);");
    }
    std::vector<pid_t> kids;
    for (int p = 0; p < P; ++p) {
        unsigned long s = r.g();
        pid_t pid = fork();
        if (pid == 0) {
            long d = 0;
            std::string e;
            worker(path, 100 + p, ops, s, d, e);
            std::ofstream(path + str(".child", p)) << d << " " << e;
            _exit(0);
        }
        kids.push_back(pid);
    }
    std::vector<std::thread> ts;
    std::vector<long> done(T, 0);
    std::vector<std::string> err(T);
    for (int t = 0; t < T; ++t) ts.emplace_back([&, t, s = r.g()] { worker(path, t, ops, s, done[t], err[t]); });
    for (auto &t : ts) t.join();
    long total = 0;
    for (int t = 0; t < T; ++t) {
        total += done[t];
        if (!err[t].empty()) out().violation("writer-failed", str("a concurrent writer failed: ", err[t]), str("threads=", T, " processes=", P));
    }
    for (int p = 0; p < P; ++p) {
        int st;
        waitpid(kids[p], &st, 0);
        long d = -1;
        std::string e;
        std::ifstream f(path + str(".child", p));
        f >> d;
        std::getline(f, e);
        if (d < 0) out().violation("writer-process-died", str("status ", st), "");
        if (e.size() > 1) out().violation("writer-failed", str("a concurrent writer process failed:", e), "");
        total += d;
    }
    sqlite::handle db(path);
    sqlite::statement q(db, "select sum(v) from c;");
    q.prepare();
    q.step();
    if (q.get<int>(0) != total) out().violation("lost-update", str(total, " updates were committed, the counters hold ", q.get<int>(0)), str("threads=", T, " processes=", P));
    sqlite::statement l(db, "select w,k from log order by rowid;");
    l.prepare();
    std::vector<std::vector<int>> per(200);
    long rows = 0;
    for (auto &&x : l) {
        per[x.get<int>(0)].push_back(x.get<int>(1));
        ++rows;
    }
    for (auto const &p : per)
        for (size_t k = 0; k < p.size(); ++k)
            if (p[k] != (int)k) out().violation("log-order", "a writer's rows are missing, repeated or out of order", "");
    if (rows != total) out().violation("log-rows", str(rows, " of ", total), "");
    out().eval(str("contention:", it, ",", T, ",", P, ",", total));
    out().count("contended_commits", total);
}

int main() {
    Rng r(4);
    for (long i = 0; i < n(1500, 30000); ++i) roundtrip(r, i);
    for (long i = 0; i < n(5, 50); ++i) errors(r, i);
    for (long i = 0; i < n(6, 60); ++i) contention(r, i);
    VH_MAIN_END();
}
