// Line-oriented driver over gStore's library API (Database, Txn_manager), linked against /repo's own objects.
// Request: tab-separated fields, percent-escaped. Response: one JSON line on the original stdout; the library's own
// chatter on fd 1 goes to /dev/null (or a log file). Nothing here decides anything: the oracles live in Python.
#include "Database/Database.h"
#include "Database/Txn_manager.h"
#include "Util/Util.h"
#include <rapidjson/document.h>
#include <rapidjson/writer.h>
#include <rapidjson/stringbuffer.h>
#include <thread>
#include <atomic>
#include <condition_variable>

using namespace std;
typedef rapidjson::Writer<rapidjson::StringBuffer> W;

static FILE *OUT;
static map<string, Database *> dbs;
static map<string, shared_ptr<Txn_manager>> tms;

static string unesc(const string &s)
{
	string r;
	for (size_t i = 0; i < s.size(); i++)
		if (s[i] == '%' && i + 2 < s.size()) { r += (char)stoi(s.substr(i + 1, 2), nullptr, 16); i += 2; }
		else r += s[i];
	return r;
}
static vector<string> fields(const string &line)
{
	vector<string> v; string cur;
	for (char c : line) if (c == '\t') { v.push_back(unesc(cur)); cur.clear(); } else cur += c;
	v.push_back(unesc(cur));
	return v;
}
static void str(W &w, const string &s) { w.String(s.data(), s.size()); }

// runs f, reporting what escaped it
template <class F> static string guarded(F f)
{
	try { f(); return ""; }
	catch (const char *e) { return string("char*: ") + e; }
	catch (const string &e) { return "string: " + e; }
	catch (const std::exception &e) { return string("exception: ") + e.what(); }
	catch (int e) { return "int: " + to_string(e); }
	catch (...) { return "unknown"; }
}

struct QRes { int ret = -9999; string exc, body; int a = -1, b = -1; };

// fmt: j = to_JSON, s = to_str, n = none
static QRes run_query(Database *db, const string &sparql, bool upd, char fmt)
{
	QRes r;
	ResultSet rs;
	r.exc = guarded([&] {
		r.ret = db->query(sparql, rs, NULL, upd, false, nullptr);
		if (r.ret == -100)
			r.body = fmt == 'j' ? rs.to_JSON() : fmt == 's' ? rs.to_str() : "";
	});
	return r;
}
static QRes run_tquery(Txn_manager *tm, txn_id_t tid, const string &sparql)
{
	QRes r;
	r.exc = guarded([&] { r.ret = tm->Query(tid, sparql, r.body); });
	return r;
}
static void put(W &w, const QRes &r)
{
	w.StartObject();
	w.Key("ret"); w.Int(r.ret);
	if (!r.exc.empty()) { w.Key("exc"); str(w, r.exc); }
	if (!r.body.empty()) { w.Key("body"); str(w, r.body); }
	if (r.a >= 0) { w.Key("at"); w.StartArray(); w.Int(r.a); w.Int(r.b); w.EndArray(); }
	w.EndObject();
}

// conc: a set of scripts run by one thread each. Steps are separated by \x1e, fields by \x1f.
static void conc(W &w, const string &dbname, const vector<string> &scripts)
{
	Database *db = dbs[dbname];
	shared_ptr<Txn_manager> tm = tms.count(dbname) ? tms[dbname] : nullptr;
	vector<vector<QRes>> out(scripts.size());
	vector<thread> th;
	mutex m; condition_variable cv; int ready = 0; bool go = false;
	atomic<int> clock(0);   // orders the beginnings and ends of steps
	atomic<int> here(0);    // arrivals at the barriers ("B"), which all threads have the same number of
	for (size_t i = 0; i < scripts.size(); i++)
		th.emplace_back([&, i] {
			{ unique_lock<mutex> l(m); ready++; cv.notify_all(); cv.wait(l, [&] { return go; }); }
			txn_id_t tid = 0;
			stringstream ss(scripts[i]); string step;
			while (getline(ss, step, '\x1e'))
			{
				vector<string> f; stringstream s2(step); string x;
				while (getline(s2, x, '\x1f')) f.push_back(x);
				QRes r; int at = clock++;
				if (f[0] == "q") r = run_query(db, f[1], true, 'j');
				else if (f[0] == "b") { r.exc = guarded([&] { tid = tm->Begin((IsolationLevelType)atoi(f[1].c_str())); r.ret = (int)tid; }); }
				else if (f[0] == "t") r = run_tquery(tm.get(), tid, f[1]);
				else if (f[0] == "c") r.exc = guarded([&] { r.ret = tm->Commit(tid); });
				else if (f[0] == "r") r.exc = guarded([&] { r.ret = tm->Rollback(tid); });
				else if (f[0] == "y") { std::this_thread::yield(); r.ret = 0; }
				else if (f[0] == "z") { for (volatile int k = atoi(f[1].c_str()) * 100; k > 0; k--) ; r.ret = 0; }
				else if (f[0] == "B") { int k = here++ / (int)scripts.size(); while (here < (k + 1) * (int)scripts.size()) ; r.ret = 0; }
				else if (f[0] == "s") r.exc = guarded([&] { r.ret = db->save(); });
				r.a = at; r.b = clock++;
				out[i].push_back(r);
			}
		});
	{ unique_lock<mutex> l(m); cv.wait(l, [&] { return ready == (int)scripts.size(); }); go = true; cv.notify_all(); }
	for (auto &t : th) t.join();
	w.StartArray();
	for (auto &v : out) { w.StartArray(); for (auto &r : v) put(w, r); w.EndArray(); }
	w.EndArray();
}

int main(int argc, char **argv)
{
	OUT = fdopen(dup(1), "w");
	int nul = open(argc > 1 ? argv[1] : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0644);
	dup2(nul, 1);
	if (argc > 1) dup2(nul, 2);
	Util util;
	Util::configure_new();
	string line;
	while (getline(cin, line))
	{
		vector<string> f = fields(line);
		string cmd = f[0];
		auto arg = [&](size_t i) -> string { return i < f.size() ? f[i] : ""; };
		rapidjson::StringBuffer sb; W w(sb);
		w.StartObject();
		Database *db = dbs.count(arg(1)) ? dbs[arg(1)] : nullptr;
		shared_ptr<Txn_manager> tm = tms.count(arg(1)) ? tms[arg(1)] : nullptr;
		string exc;
		if (cmd == "build")
		{
			bool ok = false;
			exc = guarded([&] { Database d(arg(1)); ok = arg(2).empty() ? d.BuildEmptyDB() : d.build(arg(2)); });
			if (ok) { ofstream o(Util::global_config["db_home"] + "/" + arg(1) + ".db/success.txt"); }
			w.Key("ok"); w.Bool(ok);
		}
		else if (cmd == "load")
		{
			bool ok = false;
			exc = guarded([&] { Database *d = new Database(arg(1)); dbs[arg(1)] = d; ok = d->load(arg(2) == "1"); });
			w.Key("ok"); w.Bool(ok);
		}
		else if (cmd == "close") // destructor: flush and free
		{
			exc = guarded([&] { tms.erase(arg(1)); tm.reset(); delete db; dbs.erase(arg(1)); });
		}
		else if (cmd == "q" && db)
		{
			QRes r = run_query(db, arg(2), arg(3) != "0", arg(4).empty() ? 'j' : arg(4)[0]);
			w.Key("r"); put(w, r);
		}
		else if (cmd == "qm" && db) // many queries at once
		{
			w.Key("rs"); w.StartArray();
			for (size_t i = 2; i < f.size(); i++) { QRes r = run_query(db, f[i], true, 'j'); put(w, r); }
			w.EndArray();
		}
		else if (cmd == "qout" && db) // result written to a file, as gquery does
		{
			ResultSet rs; int ret = -9999;
			FILE *fp = fopen(arg(3).c_str(), "w");
			exc = guarded([&] { ret = db->query(arg(2), rs, fp, true, arg(4) == "1", nullptr); });
			fclose(fp);
			w.Key("ret"); w.Int(ret);
		}
		else if (cmd == "binsert" && db) { unsigned n = 0; exc = guarded([&] { n = db->batch_insert(arg(2), false, nullptr); }); w.Key("n"); w.Uint(n); }
		else if (cmd == "bremove" && db) { unsigned n = 0; exc = guarded([&] { n = db->batch_remove(arg(2), false, nullptr); }); w.Key("n"); w.Uint(n); }
		else if (cmd == "finsert" && db) { bool n = 0; exc = guarded([&] { n = db->insert(arg(2)); }); w.Key("ok"); w.Bool(n); }
		else if (cmd == "fremove" && db) { bool n = 0; exc = guarded([&] { n = db->remove(arg(2)); }); w.Key("ok"); w.Bool(n); }
		else if (cmd == "save" && db) { bool n = 0; exc = guarded([&] { n = db->save(); }); w.Key("ok"); w.Bool(n); }
		else if (cmd == "backup" && db) { bool n = 0; exc = guarded([&] { n = db->backup(); }); w.Key("ok"); w.Bool(n); }
		else if (cmd == "restore" && db) { bool n = 0; exc = guarded([&] { n = db->restore(); }); w.Key("ok"); w.Bool(n); }
		else if (cmd == "export" && db)
		{
			FILE *fp = fopen(arg(2).c_str(), "w");
			exc = guarded([&] { db->export_db(fp); });
			fclose(fp);
		}
		else if (cmd == "stats" && db)
		{
			w.Key("triples"); w.Int64(db->getTripleNum());
			w.Key("entities"); w.Int64(db->getEntityNum());
			w.Key("literals"); w.Int64(db->getLiteralNum());
			w.Key("subjects"); w.Int64(db->getSubNum());
			w.Key("predicates"); w.Int64(db->getPreNum());
			w.Key("types"); w.StartObject();
			for (auto &p : db->getStatisticsInfo()) { str(w, p.first); w.Uint64(p.second); }
			w.EndObject();
		}
		else if (cmd == "tmnew" && db) { exc = guarded([&] { tms[arg(1)] = make_shared<Txn_manager>(db, arg(1)); }); }
		else if (cmd == "tmdel") { exc = guarded([&] { tm.reset(); tms.erase(arg(1)); }); }
		else if (cmd == "begin" && tm) { txn_id_t t = 0; exc = guarded([&] { t = tm->Begin((IsolationLevelType)stoi(arg(2))); }); w.Key("tid"); w.Int64((long long)t); }
		else if (cmd == "tq" && tm) { QRes r = run_tquery(tm.get(), stoull(arg(2)), arg(3)); w.Key("r"); put(w, r); }
		else if (cmd == "commit" && tm) { int r = -9999; exc = guarded([&] { r = tm->Commit(stoull(arg(2))); }); w.Key("ret"); w.Int(r); }
		else if (cmd == "rollback" && tm) { int r = -9999; exc = guarded([&] { r = tm->Rollback(stoull(arg(2))); }); w.Key("ret"); w.Int(r); }
		else if (cmd == "checkpoint" && tm) { exc = guarded([&] { tm->Checkpoint(); }); }
		else if (cmd == "conc" && db) { w.Key("rs"); conc(w, arg(1), vector<string>(f.begin() + 2, f.end())); }
		else if (cmd == "chdir") { w.Key("ok"); w.Bool(chdir(arg(1).c_str()) == 0); }
		else if (cmd == "exit") break;
		else { w.Key("bad"); str(w, cmd); }
		if (!exc.empty()) { w.Key("exc"); str(w, exc); }
		w.EndObject();
		fwrite(sb.GetString(), 1, sb.GetSize(), OUT);
		fputc('\n', OUT);
		fflush(OUT);
	}
	fflush(OUT);
	_exit(0);
}
