// The service level on concrete requests: modes are picked per property.
#include "svc.h"
using namespace svc;

// ---------------------------------------------------------------- whole requests
static void exec(Rng& r, int fail, int future, int null, Want want = {})
{
	Gen g(r);
	Case c; c.doc = g.doc(3); c.vars = g.supply(c.doc.ops[0], false); c.w.seed = r.g(); c.async = r.coin(20);
	c.w.failPct = fail; c.w.futurePct = future; c.w.nullPct = null;
	checkCase(c, want);
}

// ---------------------------------------------------------------- C10: errors on their own
static std::string someText(Rng& r)
{
	static const std::vector<std::string> ss { "", "m", "a message", std::string("nul\0inside", 10), "\xc3\xa9\n\t\"", "Unknown field name: x", std::string(300, 'z') };
	return r.coin(70) ? r.pick(ss) : "r" + std::to_string(r.below(1000000));
}
static void errorValues(Rng& r)
{
	static std::vector<std::string> names { "a", "b", "field", "", "a_longer_name_than_the_small_string" };
	std::list<service::schema_error> errs; std::vector<service::schema_error> want;
	for (int n = int(r.below(6)); n > 0; --n)
	{
		service::schema_error e { someText(r) };
		if (r.coin(70)) e.location = { size_t(r.below(4) ? 1 + r.below(2000) : 0), size_t(r.below(2000)) };
		for (int k = r.coin(30) ? 0 : int(r.below(7)); k > 0; --k)
			if (r.coin()) e.path.push_back(std::string_view { r.pick(names) }); else e.path.push_back(size_t(r.coin() ? r.below(3) : r.below(2147483647)));
		errs.push_back(e); want.push_back(e);
	}
	std::string ctx = "buildErrorValues of " + std::to_string(want.size()) + " errors";
	auto cmp = [&](const Value& v, const std::string& how) {
		check(v.type() == Type::List && v.size() == want.size(), ctx + how + ": " + dump(v));
		for (size_t i = 0; i < want.size(); ++i)
		{
			const auto& e = v.get<rsp::ListType>()[i]; const auto& w = want[i];
			std::string c = ctx + how + ": entry " + std::to_string(i) + " is " + dump(e);
			check(e.type() == Type::Map && e.size() == 1u + (w.location.line != 0) + !w.path.empty(), c + ": members");
			check(e.find("message") != e.end() && e["message"].get<rsp::StringType>() == w.message, c + ": message should be " + show(w.message));
			if (w.location.line)
			{
				check(e.find("locations") != e.end(), c + ": location lost");
				const auto& l = e["locations"]; check(l.type() == Type::List && l.size() == 1 && l.get<rsp::ListType>()[0].size() == 2, c + ": locations");
				check(size_t(l.get<rsp::ListType>()[0]["line"].get<rsp::IntType>()) == w.location.line && size_t(l.get<rsp::ListType>()[0]["column"].get<rsp::IntType>()) == w.location.column, c + ": location should be " + std::to_string(w.location.line) + ":" + std::to_string(w.location.column));
			}
			if (!w.path.empty())
			{
				Path p; for (auto& s : w.path) if (s.index() == 0) p.push_back({ false, std::string(std::get<0>(s)), 0 }); else p.push_back({ true, "", std::get<1>(s) });
				check(e.find("path") != e.end() && samePath(e["path"], p), c + ": path should be " + showPath(p));
			}
		}
	};
	{ auto copy = errs; cmp(service::buildErrorValues(std::move(copy)), ""); }
	{ auto copy = errs; service::schema_exception ex(std::move(copy)); std::string w = ex.what(); check(w == (want.empty() ? "Unknown schema error" : want[0].message.c_str()), ctx + ": what() is " + show(w)); check(service::schema_exception(ex).getErrors().size() == want.size(), ctx + ": getErrors of a copy"); cmp(ex.getErrors(), " through schema_exception::getErrors"); }
	{ auto copy = errs; service::schema_exception ex(std::move(copy)); auto back = ex.getStructuredErrors(); cmp(service::buildErrorValues(std::move(back)), " through getStructuredErrors"); }
	{
		std::vector<std::string> ms; for (auto& w : want) ms.push_back(w.message);
		for (auto& w : want) { w.location = {}; w.path.clear(); }
		service::schema_exception ex(std::move(ms)); cmp(ex.getErrors(), " through schema_exception(messages)");
	}
}
static void errorPath(Rng& r)
{
	static std::vector<std::string> names { "a", "b", "field", "" };
	std::vector<service::field_path> chain(r.below(9)); Path want;
	for (size_t i = 0; i < chain.size(); ++i)
	{
		if (i) chain[i].parent = std::cref(chain[i - 1]);
		if (r.coin()) { chain[i].segment = std::string_view { r.pick(names) }; want.push_back({ false, std::string(std::get<0>(chain[i].segment)), 0 }); }
		else { chain[i].segment = size_t(r.below(100)); want.push_back({ true, "", std::get<1>(chain[i].segment) }); }
	}
	auto p = service::buildErrorPath(chain.empty() ? std::optional<service::field_path> {} : std::make_optional(chain.back()));
	bool ok = p.size() == want.size();
	for (size_t i = 0; ok && i < p.size(); ++i) ok = p[i].index() == size_t(want[i].idx) && (want[i].idx ? std::get<1>(p[i]) == want[i].i : std::get<0>(p[i]) == want[i].n);
	check(ok, "buildErrorPath of " + showPath(want) + " has " + std::to_string(p.size()) + " segments or other segments");
}

// ---------------------------------------------------------------- C06: literals and variables
static void literals(Rng& r)
{
	Gen g(r);
	g.badDirectives = false; g.unknownFields = false;
	Case c; Op o;
	if (r.coin(70)) o.name = "Op";
	for (int n = int(r.below(5)); n > 0; --n) { VarDef v; v.name = (n == 2 ? "v" : "var") + std::to_string(n); v.hasDefault = r.coin(50); if (v.hasDefault) v.def = genLit(r, 2, { "supplied", "alsoSupplied" }, r.coin(20)); g.vars.push_back(v.name); o.vars.push_back(v); }
	if (r.coin(12)) g.vars.push_back("notDefined");
	for (int n = 1 + int(r.below(3)); n > 0; --n)
	{
		Sel s; s.name = "echo"; s.alias = "r" + std::to_string(n);
		static const std::vector<std::string> ns { "a", "b", "arg", "if", "x", "longerName" };
		std::set<std::string> seen;
		for (int k = int(r.below(4)); k > 0; --k) { auto nm = r.pick(ns); if (seen.insert(nm).second) s.args.push_back({ nm, genLit(r, int(r.below(5)), g.vars) }); }
		if (r.coin(25)) s.dirs.push_back({ "tag", { { "t", genLit(r, 2, g.vars) } } });
		o.sub.push_back(std::move(s));
	}
	if (o.vars.empty() && o.name.empty() && r.coin()) o.shorthand = true;
	c.doc.ops.push_back(std::move(o));
	c.vars = g.supply(c.doc.ops[0], false);
	if (r.coin()) c.vars["supplied"] = genValue(r, 1, {});
	if (r.coin()) c.vars["alsoSupplied"] = genValue(r, 1, {});
	c.w.seed = r.g(); c.w.failPct = 0; c.w.futurePct = 0; c.w.nullPct = 0;
	checkCase(c);
}

// ---------------------------------------------------------------- C07: inclusion directives
static void directives(Rng& r)
{
	Gen g(r);
	g.unknownFields = false; g.bvars = { "yes", "no", "maybe" };
	Case c; Op o; o.name = "Op";
	for (auto n : { "yes", "no", "maybe" }) { VarDef v; v.name = n; v.hasDefault = r.coin(60); v.def.k = r.coin(97) ? Lit::Bool : Lit::Null; v.def.b = r.coin(); o.vars.push_back(v); if (r.coin(v.hasDefault ? 40 : 97)) c.vars[n] = Value(r.coin()); }
	auto bad = [&](Dir& d)
	{
		switch (r.below(9))
		{
			case 0: d.args.clear(); break;
			case 1: d.args[0].v = Lit {}; d.args[0].v.k = Lit::Int; d.args[0].v.i = int(r.below(2)); break;
			case 2: { static const std::vector<std::string> ns { "unless", "If", "i", "iff" }; d.args[0].name = r.pick(ns); break; }
			case 3: { Lit l; l.k = Lit::Bool; l.b = r.coin(); d.args.push_back({ r.coin() ? "b" : "iff", l }); break; }
			case 4: { Lit l; l.k = Lit::Bool; l.b = r.coin(); d.args.insert(d.args.begin(), { r.coin() ? "a" : "ifs", l }); break; }
			case 5: d.args[0].v = Lit {}; d.args[0].v.k = Lit::Null; break;
			case 6: d.args[0].v = Lit {}; d.args[0].v.k = Lit::Str; d.args[0].v.s = "true"; break;
			case 7: { Lit l; l.k = Lit::List; l.c.emplace_back("", d.args[0].v); d.args[0].v = l; break; }
			default: d.args[0].v = Lit {}; d.args[0].v.k = Lit::Enum; d.args[0].v.s = "yes";
		}
	};
	auto dirs = [&]
	{
		std::vector<Dir> v; std::set<std::string> seen;
		static const std::vector<std::string> ns { "skip", "include", "skip", "include", "tag", "other", "skipped", "Include", "inc" };
		for (int n = int(r.below(5)); n > 0; --n)
		{
			auto nm = r.pick(ns);
			if (!seen.insert(nm).second) continue;
			Dir d { nm, {} };
			d.args.push_back({ "if", g.boolLit() });
			if ((nm == "skip" || nm == "include") && d.args[0].v.k == Lit::Bool && r.coin(40)) d.args[0].v.b = nm == "include";
			if ((nm == "skip" || nm == "include") && r.coin(3)) bad(d);
			v.push_back(d);
		}
		return v;
	};
	static const std::vector<std::string> leaf { "i", "s", "b", "echo", "__typename" };
	std::function<std::vector<Sel>(int)> sels = [&](int depth)
	{
		std::vector<Sel> v;
		for (int n = 1 + int(r.below(4)); n > 0; --n)
		{
			Sel s; int k = int(r.below(10));
			if (k < 6 || !depth) { s.name = r.pick(leaf); if (r.coin(60)) s.alias = "x" + std::to_string(r.below(5)); if (depth && r.coin(25)) { s.name = "on"; s.hasSub = true; s.sub = sels(depth - 1); s.alias = ""; } }
			else if (k < 8) { s.k = Sel::Spread; s.name = "F" + std::to_string(depth); }
			else { s.k = Sel::Inline; s.cond = r.coin() ? "" : "Iface"; s.sub = sels(depth - 1); s.hasSub = true; }
			s.dirs = dirs();
			v.push_back(std::move(s));
		}
		return v;
	};
	for (int d = 1; d <= 2; ++d) { Frag f; f.name = "F" + std::to_string(d); f.cond = r.coin(80) ? "Iface" : "B"; f.sub = sels(d - 1); c.doc.frags.push_back(std::move(f)); }
	o.sub = sels(2);
	c.doc.ops.push_back(std::move(o));
	c.w.seed = r.g(); c.w.failPct = 0; c.w.futurePct = 0; c.w.nullPct = 0;
	checkCase(c);
}

// ---------------------------------------------------------------- C11: histories of subscribe, unsubscribe and deliver
struct Active { size_t id; Doc doc; Vars vars; size_t op; std::string field; Value args, fdirs; };
struct Wanted { bool ok = true, none = true; std::string field; Value args, fdirs; };
static void wanted(const Model& m, const std::vector<Sel>& sels, Wanted& w)
{
	for (auto& s : sels)
	{
		if (s.k == Sel::Field)
		{
			if (!w.none) { w.ok = false; return; }
			if (Model::skipped(s.dirs, m.vars)) continue;
			w.none = false; w.field = s.name; w.args = Model::args(s.args, m.vars); w.fdirs = Model::dirs(s.dirs, m.vars);
		}
		else if (s.k == Sel::Spread)
		{
			const Frag* f = nullptr;
			for (auto& x : m.doc.frags) if (x.name == s.name) { f = &x; break; }
			if (!f) { w.ok = false; return; }
			if (f->cond != "S" || Model::skipped(s.dirs, m.vars)) continue;
			wanted(m, f->sub, w);
		}
		else if (!Model::skipped(s.dirs, m.vars) && (s.cond.empty() || s.cond == "S")) wanted(m, s.sub, w);
		if (!w.ok) return;
	}
}
static void subscriptions(Rng& r)
{
	static const std::vector<std::string> events { "echo", "i", "s", "aLongFieldName", "echo" };
	Log log;
	auto ctx = std::make_shared<Ctx>(); ctx->w.seed = r.g(); ctx->w.failPct = r.coin() ? 0 : 20; ctx->w.futurePct = r.coin() ? 0 : 20;
	auto s = std::make_shared<Svc>(ctx, std::make_shared<schema::Schema>(true));
	std::map<service::SubscriptionKey, Active> live;
	std::set<service::SubscriptionKey> used;
	std::mutex mtx;
	std::vector<std::pair<size_t, Value>> heard; std::vector<std::string> wrong;
	size_t next = 0;
	std::string hist;
	auto litOf = [&](const std::vector<std::string>& vars)
	{
		Lit l;
		if (!vars.empty() && r.coin(30)) { l.k = Lit::Var; l.s = r.pick(vars); }
		else if (r.coin(70)) { l.k = Lit::Int; l.i = int(r.below(3)); }
		else { l.k = Lit::Str; l.s = r.coin() ? "a" : ""; }
		return l;
	};
	auto subscribe = [&]
	{
		Active a; a.id = next++;
		Gen g(r); g.unknownFields = false; g.badDirectives = false;
		auto makeOp = [&](const char* type)
		{
			Op o; o.type = type; o.name = "N" + std::to_string(a.doc.ops.size());
			std::vector<std::string> vs;
			for (int n = int(r.below(3)); n > 0; --n) { VarDef v; v.name = "v" + std::to_string(n); v.hasDefault = r.coin(); v.def.k = Lit::Int; v.def.i = int(r.below(3)); vs.push_back(v.name); o.vars.push_back(v); if (r.coin()) a.vars[v.name] = Value(int(r.below(3))); }
			auto dirs = [&](bool inc)
			{
				std::vector<Dir> ds;
				if (inc && r.coin(12)) { Dir d { r.coin() ? "skip" : "include", { { "if", Lit {} } } }; d.args[0].v.k = Lit::Bool; d.args[0].v.b = r.coin(); ds.push_back(d); }
				if (r.coin(15)) { Dir d { "tag", {} }; if (r.coin(80)) d.args.push_back({ "t", litOf(vs) }); ds.push_back(d); }
				return ds;
			};
			auto field = [&]
			{
				Sel f; f.name = r.pick(events); if (r.coin(20)) f.alias = r.pick(events);
				if (r.coin(60)) f.args.push_back({ "a", litOf(vs) });
				if (r.coin(30)) f.args.push_back({ "b", litOf(vs) });
				f.dirs = dirs(true); return f;
			};
			o.dirs = dirs(false);
			std::function<Sel(int)> wrap = [&](int depth)
			{
				int k = int(r.below(10));
				if (!depth || k < 6) return field();
				Sel x; x.dirs = dirs(true);
				if (k < 8) { x.k = Sel::Inline; x.cond = r.coin(40) ? "" : r.coin(80) ? "S" : "Q"; x.hasSub = true; x.sub.push_back(wrap(depth - 1)); return x; }
				Frag f; f.name = "F" + std::to_string(a.doc.frags.size()) + "_" + std::to_string(depth); f.cond = r.coin(85) ? "S" : "Q"; f.sub.push_back(wrap(depth - 1));
				x.k = Sel::Spread; x.name = r.coin(96) ? f.name : "Missing"; a.doc.frags.push_back(f); return x;
			};
			o.sub.push_back(wrap(2));
			while (r.coin(10)) o.sub.push_back(wrap(1));
			a.doc.ops.push_back(std::move(o));
		};
		for (int n = r.coin(75) ? 1 : 2; n > 0; --n) makeOp(r.coin(92) ? "subscription" : "query");
		a.doc.fragsFirst = r.coin();
		a.op = r.below(a.doc.ops.size());
		service::SubscriptionParams p; Printer pr; pr.doc(a.doc);
		p.operationName = a.op == 0 && r.coin() ? "" : a.doc.ops[a.op].name;
		bool unknown = r.coin(3); if (unknown) p.operationName = "Nobody";
		p.query = peg::parseString(pr.t); p.query.validated = true;
		p.variables = varsValue(a.vars);
		bool async = r.coin(30);
		hist += std::string(async ? " +a" : " +") + std::to_string(a.id) + "<" + pr.t + " op '" + p.operationName + "' vars " + dump(p.variables) + ">";
		Wanted w; Model m(a.doc, a.doc.ops[a.op], ctx->w);
		try
		{
			for (auto& f : a.doc.frags) m.fragDirs.emplace(f.name, Model::dirs(f.dirs, a.vars));
			m.bind(a.vars); (void)Model::dirs(a.doc.ops[a.op].dirs, m.vars);
			wanted(m, a.doc.ops[a.op].sub, w);
		}
		catch (Abort&) { w.ok = false; }
		if (unknown || a.doc.ops[a.op].type != "subscription") w.ok = false;
		size_t id = a.id;
		auto cb = [&, id](std::future<Value> f)
		{
			std::optional<Value> v; std::string t;
			try { v = f.get(); } catch (const std::exception& e) { t = e.what(); } catch (...) { t = "?"; }
			std::lock_guard<std::mutex> l(mtx);
			if (v) heard.emplace_back(id, std::move(*v)); else wrong.push_back("the document of " + std::to_string(id) + " is an exception: " + t);
		};
		std::optional<service::SubscriptionKey> key; std::string err;
		const bool refuse = async && r.coin(20);
		log.calls.clear(); ctx->log = &log; ctx->refuse = refuse;
		if (refuse) { w.ok = false; hist += "(refused)"; }
		try { key = async ? s->subscribe(r.coin() ? std::launch::async : std::launch::deferred, std::move(p), cb).get() : s->subscribe(std::move(p), cb); }
		catch (const std::exception& e) { err = e.what(); }
		ctx->log = nullptr; ctx->refuse = false;
		if (!w.ok) { check(!key, hist + ": the last subscription should have been refused"); check(log.calls.empty(), hist + ": a refused subscription called a resolver"); return; }
		check(bool(key), hist + ": the last subscription was refused: " + err);
		check(!live.count(*key), hist + ": key " + std::to_string(*key) + " is already in use");
		Model q(a.doc, a.doc.ops[a.op], ctx->w); q.ctx = service::ResolverContext::NotifySubscribe; q.execute(a.vars);
		if (async) compareCalls(log.calls, q.calls, hist + ": notified of the subscription");
		else check(log.calls.empty(), hist + ": resolver called while subscribing");
		a.field = w.field; if (w.none) { a.args = Value(Type::Map); a.fdirs = Value(Type::Map); } else { a.args = std::move(w.args); a.fdirs = std::move(w.fdirs); }
		hist += "=" + std::to_string(*key);
		live.emplace(*key, std::move(a));
	};
	auto unsubscribe = [&]
	{
		service::SubscriptionKey key = live.empty() || r.coin(10) ? 1000 + r.below(3) : std::next(live.begin(), long(r.below(live.size())))->first;
		bool async = r.coin(30); std::string err;
		hist += std::string(async ? " -a" : " -") + std::to_string(key);
		ctx->refuse = async && r.coin(20); if (ctx->refuse) hist += "(refused)";
		try { if (async) s->unsubscribe(r.coin() ? std::launch::async : std::launch::deferred, key).get(); else s->unsubscribe(key); }
		catch (const std::exception& e) { err = e.what(); }
		if (ctx->refuse) { ctx->refuse = false; check(err == (live.count(key) ? "refused" : err), hist + ": the refusal was lost: " + err); return; }
		if (live.count(key)) check(err.empty(), hist + ": failed: " + err);
		live.erase(key);
	};
	auto deliver = [&]
	{
		std::string name = r.coin(95) ? r.pick(events) : "other";
		auto args = [&] { service::SubscriptionArguments a; if (r.coin(75)) a.emplace("a", eval(litOf({}), {})); if (r.coin(60)) a.emplace("b", eval(litOf({}), {})); if (r.coin(20)) a.emplace("zz", Value(1)); return a; };
		auto fdirs = [&] { service::SubscriptionArguments a; auto t = [](int i) { Value v(Type::Map); if (i >= 0) v.emplace_back("t", Value(i)); return v; }; if (r.coin(70)) a.emplace("tag", t(int(r.below(4)) - 1)); if (r.coin(40)) { Value v(Type::Map); v.emplace_back("if", Value(true)); a.emplace("include", std::move(v)); } return a; };
		using F = service::SubscriptionFilterCallback;
		using Ref = rsp::MapType::const_reference;
		auto any = [](Ref) { return true; };
		auto by = [](const service::SubscriptionArguments& a) -> F { return [a](Ref e) { auto i = a.find(e.first); return i != a.end() && same(i->second, e.second); }; };
		auto odd = [&] { uint64_t h = r.g(); return F([h](Ref e) { return mix(mix(h, e.first), dump(e.second)) % 4 != 0; }); };
		auto ctx2 = std::make_shared<Ctx>(*ctx); ctx2->w.seed = r.g();
		const bool own = r.coin(70);
		std::shared_ptr<service::Object> o; if (own) o = make(ctx2, 3);
		const auto& w = own ? ctx2->w : ctx->w;
		int k = int(r.below(10));
		std::launch l = r.coin(40) ? std::launch::async : std::launch::deferred;
		auto a = args(), d = fdirs(); F fa = odd(), fd = odd(), wa = any, wd = any;
		heard.clear();
		Value av(Type::Map), dv(Type::Map); for (auto& e : a) av.emplace_back(std::string(e.first), Value(e.second)); for (auto& e : d) dv.emplace_back(std::string(e.first), Value(e.second));
		hist += " !" + name + "/" + std::to_string(k) + dump(av) + dump(dv);
		switch (k)
		{
			case 0: wa = by({}); wd = by({}); s->deliver(name, o); break;
			case 1: wa = by(a); wd = by({}); s->deliver(name, a, o); break;
			case 2: wa = by(a); wd = by(d); s->deliver(name, a, d, o); break;
			case 3: wa = fa; s->deliver(name, fa, o); break;
			case 4: wa = fa; wd = fd; s->deliver(name, fa, fd, o); break;
			case 5: wa = by({}); wd = by({}); s->deliver(l, name, o); break;
			case 6: wa = by(a); wd = by({}); s->deliver(l, name, a, o); break;
			case 7: wa = by(a); wd = by(d); s->deliver(l, name, a, d, o); break;
			case 8: wa = fa; s->deliver(l, name, fa, o); break;
			default: wa = fa; wd = fd; s->deliver(l, name, fa, fd, o);
		}
		check(wrong.empty(), hist + ": " + (wrong.empty() ? "" : wrong[0]));
		std::map<size_t, const Active*> want;
		for (auto& e : live)
		{
			if (e.second.field != name) continue;
			bool ok = true;
			for (auto& x : e.second.args.get<rsp::MapType>()) ok = ok && wa(x);
			for (auto& x : e.second.fdirs.get<rsp::MapType>()) ok = ok && wd(x);
			if (ok) want.emplace(e.second.id, &e.second);
		}
		std::map<size_t, int> times;
		for (auto& e : heard)
		{
			check(want.count(e.first) > 0, hist + ": subscription " + std::to_string(e.first) + " should not have been called");
			check(++times[e.first] == 1, hist + ": subscription " + std::to_string(e.first) + " was called twice");
			const Active& x = *want.at(e.first);
			Model m(x.doc, x.doc.ops[x.op], w); m.ctx = service::ResolverContext::Subscription; m.keepCalls = false;
			compareDoc(e.second, m.execute(x.vars), hist + ": subscription " + std::to_string(e.first));
		}
		for (auto& e : want) check(times[e.first] == 1, hist + ": subscription " + std::to_string(e.first) + " was not called");
	};
	for (int n = 3 + int(r.below(20)); n > 0; --n)
		switch (r.below(10)) { case 0: case 1: case 2: case 3: subscribe(); break; case 4: case 5: unsubscribe(); break; default: deliver(); }
	for (auto& e : events) { (void)e; deliver(); }
}

// ---------------------------------------------------------------- C12: which operation a request runs, and that it is answered
static void requests(Rng& r)
{
	Gen g(r);
	Case c; c.doc = g.doc(2);
	// more operations, of every type
	static const std::vector<std::string> types { "query", "mutation", "subscription", "query", "mutation" };
	c.doc.ops[0].type = r.coin(60) ? "query" : r.pick(types); if (c.doc.ops[0].type != "query") c.doc.ops[0].shorthand = false;
	for (int n = int(r.below(4)); n > 0; --n) { Op o = c.doc.ops[0]; o.shorthand = false; o.type = r.pick(types); o.name = r.coin(90) ? "Op" + std::to_string(n) : ""; o.sub = g.sels(1); c.doc.ops.push_back(std::move(o)); }
	c.w.seed = r.g(); c.w.failPct = r.coin() ? 0 : 30; c.async = r.coin(30);
	const bool hasMut = r.coin(80), empty = r.coin(10), tree = r.coin(25), checkFirst = !tree && r.coin(15), launch = r.coin();
	if (!launch) c.async = false;
	static const std::vector<std::string> other { "Nobody", "op", "Op ", "Op11" };
	c.opName = r.coin(30) ? "" : r.coin(85) ? r.pick(c.doc.ops).name : r.pick(other);
	const Op* op = nullptr;
	for (auto& o : c.doc.ops) if (c.opName.empty() || o.name == c.opName) { op = &o; break; }
	c.vars = g.supply(op ? *op : c.doc.ops[0], r.coin(10));
	Printer p; p.doc(c.doc);
	std::string ctx = caseText(c, p.t) + " operation '" + c.opName + "'" + (hasMut ? "" : " no mutations") + (tree ? " tree" : "") + (checkFirst ? " validated first" : "");
	Log log; auto cx = std::make_shared<Ctx>(); cx->w = c.w; cx->log = &log;
	std::shared_ptr<service::Request> s;
	if (empty) { struct None : service::Request { None(service::TypeMap&& m) : service::Request(std::move(m), std::make_shared<schema::Schema>(true)) {} }; service::TypeMap m; m.emplace("query", std::shared_ptr<service::Object> {}); s = std::make_shared<None>(std::move(m)); }
	else s = std::make_shared<Svc>(cx, std::make_shared<schema::Schema>(true), r.coin(), hasMut);
	peg::ast ast = peg::parseString(p.t); ast.validated = !checkFirst;
	std::optional<Value> doc; std::string threw;
	if (checkFirst && r.coin()) { try { s->resolve(nullptr, ast, c.opName, varsValue(c.vars)).get(); } catch (const std::exception&) {} }
	const auto l = c.async ? std::launch::async : std::launch::deferred;
	try
	{
		auto v = varsValue(c.vars);
		if (tree) doc = launch ? s->resolve(l, nullptr, *ast.root, c.opName, std::move(v)).get() : s->resolve(nullptr, *ast.root, c.opName, std::move(v)).get();
		else doc = launch ? s->resolve(l, nullptr, ast, c.opName, std::move(v)).get() : s->resolve(nullptr, ast, c.opName, std::move(v)).get();
	}
	catch (const std::exception& e) { threw = e.what(); }
	check(bool(doc), ctx + ": exception instead of a response: " + threw);
	const bool can = op && op->type != "subscription" && !empty && (op->type == "query" || hasMut);
	if (checkFirst || !can)
	{
		check(log.calls.empty(), ctx + ": a resolver was called");
		check(doc->type() == Type::Map && doc->size() == 2 && doc->find("data") != doc->end() && (*doc)["data"].type() == Type::Null && doc->find("errors") != doc->end() && (*doc)["errors"].type() == Type::List && (*doc)["errors"].size() > 0, ctx + ": should be refused: " + dump(*doc));
		return;
	}
	Model m(c.doc, *op, c.w);
	m.ctx = op->type == "mutation" ? service::ResolverContext::Mutation : service::ResolverContext::Query;
	Res e = m.execute(c.vars);
	compareDoc(*doc, e, ctx);
	if (!c.async && !m.aborted) compareCalls(log.calls, m.calls, ctx);
	for (auto& k : log.calls) check(k.ctx == m.ctx && (k.launch == std::launch::deferred || (c.async && op->type != "mutation")), ctx + ": resolver called in another context or with another launch policy: " + showCall(k));
}

int main(int argc, char** argv)
{
	return run(argc, argv, {
		{ "exec", nullptr, [](Rng& r) { exec(r, r.coin() ? 0 : 12, 25, 15); } },
		{ "exec-errors", nullptr, [](Rng& r) { exec(r, 10 + int(r.below(60)), int(r.below(60)), 10); } },
		{ "literals", nullptr, literals },
		{ "directives", nullptr, directives },
		{ "requests", nullptr, requests },
		{ "subscriptions", nullptr, subscriptions },
		{ "error-values", nullptr, errorValues },
		{ "error-path", nullptr, errorPath },
	});
}
