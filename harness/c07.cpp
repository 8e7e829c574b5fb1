// C07: rules exported as JSON can be inserted back unchanged.
#include "ref.hpp"
#include <cjson/cJSON.h>
using namespace xc;

static void trial(XCSF *s, const Cfg &c, int op)
{
    if (op == 2) {
        V x = sample(c, 3), o((size_t) s->pa_size), fb((size_t) s->pa_size, 0.5);
        xcs_supervised_predict(s, x.data(), o.data(), 1, fb.data());
    } else if (op == 3 && c.y == 1) {
        V x = sample(c, 2);
        xcs_rl_fit(s, x.data(), c.a - 1, 0.5);
    } else {
        fit1(s, sample(c, op), target(c, op));
    }
}
static string text(const XCSF *s, bool cond = true, bool act = true, bool pred = true)
{
    char *p = clset_json_export(s, &s->pset, cond, act, pred);
    string r;
    for (char *l = p, *e; *l; l = e) { // the accuracy is derived, not stored
        e = strchr(l, '\n');
        e = e ? e + 1 : l + strlen(l);
        if (!memmem(l, (size_t) (e - l), "\"accuracy\"", 10)) r.append(l, e);
    }
    free(p);
    return r;
}
// equal up to the precision of the text form
static void round15(const V &a, V &b)
{
    if (a.size() != b.size()) return;
    for (size_t i = 0; i < a.size(); ++i)
        if (near(a[i], b[i], 1e-15 * 4, 0)) b[i] = a[i];
}
static void round15(const Snap &a, Snap &b)
{
    round15(a.stats, b.stats);
    round15(a.cond, b.cond);
    round15(a.act, b.act);
    round15(a.pred, b.pred);
    round15(a.prediction, b.prediction);
}
// what the JSON form carries of a rule (the RLS covariance matrix is not part of it)
static Snap carried(const XCSF *s, const Cl *c)
{
    Snap r = snap(s, c);
    if (s->pred->type == PRED_TYPE_RLS_LINEAR || s->pred->type == PRED_TYPE_RLS_QUADRATIC) r.pred.resize(2 + (size_t) ((const PredRLS *) c->pred)->n_weights);
    if (s->n_actions == 1) r.act.clear(); // with one action the action part is not exported
    return r;
}
static string same_rule(const XCSF *a, const Cl *x, const XCSF *b, const Cl *y)
{
    Snap p = carried(a, x), q = carried(b, y);
    round15(p, q);
    string d = diff(p, q);
    if (d.empty() && !bits_eq(p.prediction, q.prediction)) d = "current prediction";
    if (d.empty() && p.action != q.action) d = "current action";
    if (d.empty() && x->m != y->m) d = "current match";
    return d;
}
static void exact(const XCSF *s, const char *when)
{
    int n = 0, num = 0;
    for (Cl *c : rules(s->pset)) {
        ++n;
        num += c->num;
        if (c->num < 1) mc::fail("numerosity", "%s: a rule has numerosity %d", when, c->num);
    }
    if (n != s->pset.size || num != s->pset.num) mc::fail("counts", "%s: %d rules of numerosity %d reported as %d of %d", when, n, num, s->pset.size, s->pset.num);
    if (num > s->POP_SIZE) mc::fail("limit", "%s: total numerosity %d above the limit %d", when, num, s->POP_SIZE);
}
static void roundtrip(XCSF *s, const Cfg &c)
{
    const auto pb = dump_params(s);
    const vector<Snap> sb = snap_pop(s);
    const string whole = text(s);
    // exporting never changes the system
    for (int k = 0; k < 8; ++k) text(s, k & 1, k & 2, k & 4);
    for (Cl *r : rules(s->pset)) {
        char *p = cl_json_export(s, r, true, true, true);
        free(p);
    }
    if (text(s) != whole) mc::fail("export-unstable", "exporting twice gives different text");
    if (sb != snap_pop(s)) mc::fail("export-pop", "exporting changed the population");
    if (!diff_params(pb, dump_params(s)).empty()) mc::fail("export-params", "exporting changed a parameter: %s", diff_params(pb, dump_params(s)).c_str());
    // into an empty system
    XCSF *t = make(c);
    const bool one = mc::flip();
    if (one) { // rule by rule, last first
        const vector<Cl *> rs = rules(s->pset);
        for (size_t i = rs.size(); i-- > 0;) {
            char *p = cl_json_export(s, rs[i], true, true, true);
            cJSON *j = cJSON_Parse(p);
            clset_json_insert_cl(t, j);
            cJSON_Delete(j);
            free(p);
        }
    } else {
        clset_json_insert(t, whole.c_str());
    }
    mc::step();
    exact(t, "after insertion");
    const vector<Cl *> a = rules(s->pset), b = rules(t->pset);
    if (a.size() != b.size()) mc::fail("number", "%zu rules exported, %zu inserted", a.size(), b.size());
    for (size_t i = 0; i < a.size(); ++i) {
        const string d = same_rule(s, a[i], t, b[i]);
        if (!d.empty()) mc::fail("lossy", "rule %zu: %s", i, d.c_str());
    }
    if (text(t) != whole) mc::fail("text", "the inserted rules export differently");
    for (int i = 0; i < 5; ++i) {
        V x = sample(c, i), o1((size_t) s->pa_size, 9), o2 = o1, fb((size_t) s->pa_size, -7.5);
        xcs_supervised_predict(s, x.data(), o1.data(), 1, fb.data());
        xcs_supervised_predict(t, x.data(), o2.data(), 1, fb.data());
        for (size_t k = 0; k < o1.size(); ++k)
            if (near(o1[k], o2[k])) o2[k] = o1[k];
        if (!bits_eq(o1, o2)) mc::fail("predict", "%s: original predicts %s, re-inserted %s", str(x).c_str(), str(o1).c_str(), str(o2).c_str());
        mc::Hash h;
        h.v(o1);
        mc::outcome(h.h);
    }
    // once more on top: the limit holds and the counts stay exact, and the system remains usable
    clset_json_insert(t, whole.c_str());
    exact(t, "after inserting on top of a population");
    trial(t, c, 0);
    trial(t, c, 1);
    exact(t, "after learning with inserted rules");
    mc::state(hash_pop(s));
    mc::validated();
    destroy(t);
}
static void body(const Cfg &c, int depth, bool branching, int warm = 0)
{
    XCSF *s = make(c);
    if (warm) grow(s, c, warm, mc::choose(4));
    for (int i = 0; i < depth; ++i) {
        const int op = mc::choose(branching ? 2 : 4);
        mc::branch(branching && i + 1 == depth);
        trial(s, c, op);
        mc::branch(false);
    }
    roundtrip(s, c);
    destroy(s);
}
// statistics over a small alphabet of unusual values
static void stats(const Cfg &c0)
{
    Cfg c = c0;
    c.pop = 100000; // room for rules of great numerosity
    XCSF *s = make(c);
    for (int i = 0; i < 4; ++i) trial(s, c, i);
    const vector<double> reals = { 0, 1e-300, 1.0 / 3, 0.1 + 0.2, 12345678.123456789, 1e22 };
    const vector<int> ints = { 0, 1, 12345, 2147483647 };
    const int f = mc::choose(8);
    Cl *r = rules(s->pset).back();
    switch (f) {
        case 0: r->err = mc::pick(reals); break;
        case 1: r->fit = mc::pick(reals); break;
        case 2: r->size = mc::pick(reals); break;
        case 3: r->exp = mc::picki(ints); break;
        case 4: r->time = mc::picki(ints); break;
        case 5: r->age = mc::picki(ints); break;
        case 6: r->mtotal = mc::picki(ints); break;
        case 7: {
            const int n = mc::picki({ 2, 9, 40, 1000, 20000 });
            s->pset.num += n - r->num;
            r->num = n;
            break;
        }
    }
    roundtrip(s, c);
    destroy(s);
}

// ---- rules that do not fit the system ----
static cJSON *find(cJSON *r, const char *a, const char *b = nullptr, const char *c = nullptr)
{
    cJSON *i = cJSON_GetObjectItem(r, a);
    if (i && b) i = cJSON_GetObjectItem(i, b);
    if (i && c) i = cJSON_GetObjectItem(i, c);
    return i;
}
struct Bad {
    string what;
    std::function<bool(cJSON *)> apply; // false: not applicable to this rule
};
static vector<Bad> bads(const Cfg &c)
{
    vector<Bad> v;
    auto types = [&](const char *part, std::initializer_list<const char *> names) {
        for (const char *n : names)
            v.push_back({ string(part) + " of type " + n, [=](cJSON *r) {
                             cJSON *t = find(r, part, "type");
                             if (!t || !strcmp(t->valuestring, n)) return false;
                             cJSON_ReplaceItemInObject(find(r, part), "type", cJSON_CreateString(n));
                             return true;
                         } });
        v.push_back({ string(part) + " without a type", [=](cJSON *r) {
                         if (!find(r, part, "type")) return false;
                         cJSON_DeleteItemFromObject(find(r, part), "type");
                         return true;
                     } });
    };
    types("condition", { "dummy", "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "ternary", "dgp", "tree_gp", "neural", "rule_dgp", "nonsense" });
    types("prediction", { "constant", "nlms_linear", "nlms_quadratic", "rls_linear", "rls_quadratic", "neural", "nonsense" });
    types("action", { "integer", "neural", "nonsense" });
    struct P { const char *a, *b, *c; };
    for (P p : { P{ "current_prediction", 0, 0 }, P{ "condition", "center", 0 }, P{ "condition", "spread", 0 }, P{ "condition", "bound1", 0 }, P{ "condition", "bound2", 0 },
             P{ "condition", "mutation", 0 }, P{ "action", "mutation", 0 }, P{ "prediction", "mutation", 0 }, P{ "prediction", "weights", 0 }, P{ "prediction", "prediction", 0 },
             P{ "condition", "graph", "initial_state" }, P{ "condition", "graph", "current_state" }, P{ "condition", "graph", "functions" }, P{ "condition", "graph", "connectivity" },
             P{ "condition", "graph", "mutation" } }) {
        const string n = string(p.a) + (p.b ? string(".") + p.b : "") + (p.c ? string(".") + p.c : "");
        v.push_back({ n + " one short", [=](cJSON *r) {
                         cJSON *i = find(r, p.a, p.b, p.c);
                         if (!i || !cJSON_IsArray(i) || cJSON_GetArraySize(i) < 1) return false;
                         cJSON_DeleteItemFromArray(i, cJSON_GetArraySize(i) - 1);
                         return true;
                     } });
        v.push_back({ n + " one long", [=](cJSON *r) {
                         cJSON *i = find(r, p.a, p.b, p.c);
                         if (!i || !cJSON_IsArray(i)) return false;
                         cJSON_AddItemToArray(i, cJSON_Duplicate(cJSON_GetArrayItem(i, 0), 1));
                         return true;
                     } });
    }
    auto item = [&](const char *a, const char *b, const char *cc, double val, int which) {
        v.push_back({ string(a) + "." + b + (cc ? string(".") + cc : "") + " holding " + std::to_string(val) + (which ? " last" : " first"), [=](cJSON *r) {
                         cJSON *i = find(r, a, b, cc);
                         if (!i || !cJSON_IsArray(i) || cJSON_GetArraySize(i) < 1) return false;
                         cJSON_ReplaceItemInArray(i, which ? cJSON_GetArraySize(i) - 1 : 0, cJSON_CreateNumber(val));
                         return true;
                     } });
    };
    for (int w : { 0, 1 }) {
        for (double x : { -0.1, 1.1 }) {
            item("condition", "mutation", 0, x, w);
            item("action", "mutation", 0, x, w);
            item("prediction", "mutation", 0, x, w);
            item("condition", "graph", "mutation", x, w);
            item("condition", "graph", "initial_state", x, w);
            item("condition", "graph", "current_state", x, w);
        }
        item("condition", "graph", "connectivity", -1, w);
        item("condition", "graph", "connectivity", 4 + c.x, w);
        item("condition", "graph", "connectivity", 4 + c.x + 1, w);
        v.push_back({ "graph function unknown", [=](cJSON *r) {
                         cJSON *i = find(r, "condition", "graph", "functions");
                         if (!i) return false;
                         cJSON_ReplaceItemInArray(i, w ? cJSON_GetArraySize(i) - 1 : 0, cJSON_CreateString("Fuzzy XOR"));
                         return true;
                     } });
    }
    auto num = [&](const char *a, const char *b, const char *cc, double val) {
        v.push_back({ string(a) + (b ? string(".") + b : "") + (cc ? string(".") + cc : "") + " = " + std::to_string(val), [=](cJSON *r) {
                         cJSON *i = find(r, a, b, cc);
                         if (!i || !cJSON_IsNumber(i)) return false;
                         cJSON_SetNumberValue(i, val);
                         return true;
                     } });
    };
    num("action", "action", 0, -1);
    num("action", "action", 0, c.a);
    num("numerosity", 0, 0, 0);
    num("numerosity", 0, 0, -3);
    num("condition", "graph", "n", 3);
    num("condition", "graph", "n", 5);
    num("condition", "graph", "n", 0);
    num("condition", "graph", "t", 0);
    for (int k = 0; k < 5; ++k)
        v.push_back({ "ternary string", [=](cJSON *r) {
                         cJSON *i = find(r, "condition", "string");
                         if (!i) return false;
                         string s = i->valuestring;
                         if (k == 0) s.pop_back();
                         if (k == 1) s += "#";
                         if (k == 2) s[0] = 'x';
                         if (k == 3) s.back() = '2';
                         if (k == 4) s = "";
                         cJSON_ReplaceItemInObject(find(r, "condition"), "string", cJSON_CreateString(s.c_str()));
                         return true;
                     } });
    v.push_back({ "graph missing", [=](cJSON *r) {
                     if (!find(r, "condition", "graph")) return false;
                     cJSON_DeleteItemFromObject(find(r, "condition"), "graph");
                     return true;
                 } });
    return v;
}
static void reject(const Cfg &c)
{
    XCSF *s = make(c);
    for (int i = 0; i < 3; ++i) trial(s, c, i % 2);
    char *p = clset_json_export(s, &s->pset, true, true, true);
    cJSON *j = cJSON_Parse(p);
    free(p);
    cJSON *list = cJSON_GetObjectItem(j, "classifiers");
    const int n = cJSON_GetArraySize(list);
    const int at = mc::choose(2) ? n - 1 : 0; // the first or the last rule of the export
    static thread_local vector<Bad> v;
    v = bads(c);
    const int k = mc::choose((int) v.size());
    if (v[(size_t) k].apply(cJSON_GetArrayItem(list, at))) {
        char *t = cJSON_Print(j);
        XCSF *r = make(c);
        mc::log("rule %d of %d with %s", at, n, v[(size_t) k].what.c_str());
        const string str = t;
        if (!mc::rejects([&] { clset_json_insert(r, str.c_str()); })) mc::fail("accepted", "a rule with %s was accepted", v[(size_t) k].what.c_str());
        mc::step();
        mc::outcome((uint64_t) k);
        free(t);
        destroy(r);
    }
    cJSON_Delete(j);
    destroy(s);
}
// leaving a part out: the rest is taken over exactly and the rule is complete
static void partial(const Cfg &c)
{
    static const char *KEYS[] = { "error", "fitness", "set_size", "numerosity", "experience", "time", "samples_seen", "samples_matched", "current_match", "current_action",
        "current_prediction", "condition", "action", "prediction" };
    XCSF *s = make(c);
    for (int i = 0; i < 3; ++i) trial(s, c, i % 2);
    Cl *r0 = rules(s->pset)[0];
    char *p = cl_json_export(s, r0, true, true, true);
    cJSON *j = cJSON_Parse(p);
    free(p);
    const int k = mc::choose(14);
    cJSON_DeleteItemFromObject(j, KEYS[k]);
    XCSF *t = make(c);
    clset_json_insert_cl(t, j);
    cJSON_Delete(j);
    exact(t, "after inserting a partial rule");
    if (t->pset.size != 1) mc::fail("partial-n", "inserting one rule gave %d", t->pset.size);
    Cl *r = t->pset.list->cl;
    Snap a = carried(s, r0), b = carried(t, r);
    const int stat[] = { 0, 1, 4, 2, 3, 5 };
    if (k < 6) a.stats[(size_t) stat[k]] = b.stats[(size_t) stat[k]] = 0;
    if (k == 6) a.age = b.age;
    if (k == 7) a.mtotal = b.mtotal;
    if (k == 11) a.cond = b.cond;
    if (k == 12) a.act = b.act;
    if (k == 13 || (k == 10 && c.pred == PRED_TYPE_CONSTANT)) a.pred = b.pred;
    round15(a, b);
    const string d = diff(a, b);
    if (!d.empty()) mc::fail("partial", "without %s: %s", KEYS[k], d.c_str());
    trial(t, c, 0);
    trial(t, c, 2);
    trial(t, c, 1);
    exact(t, "after learning with a partial rule");
    mc::step();
    mc::validated();
    destroy(t);
    destroy(s);
}
static void text_level(const Cfg &c)
{
    XCSF *s = make(c);
    const bool filled = mc::flip();
    if (filled)
        for (int i = 0; i < 3; ++i) trial(s, c, i % 2);
    const vector<Snap> before = snap_pop(s);
    const string whole = text(s);
    switch (mc::choose(3)) {
        case 0: // an empty list adds nothing
            clset_json_insert(s, "{\"classifiers\": []}");
            if (before != snap_pop(s)) mc::fail("empty", "inserting an empty list changed the population");
            break;
        case 1: // the export of an empty system can be inserted
            {
                XCSF *t = make(c);
                const string e = text(t);
                clset_json_insert(s, e.c_str());
                if (before != snap_pop(s)) mc::fail("empty", "inserting an empty system's export changed the population");
                destroy(t);
                break;
            }
        case 2: // text cut anywhere before its end is not JSON
            {
                const size_t n = whole.size();
                const size_t cut = n * (size_t) mc::choose(8) / 8;
                const string part = whole.substr(0, cut);
                if (!mc::rejects([&] { clset_json_insert(s, part.c_str()); })) mc::fail("cut", "text cut to %zu of %zu characters was accepted", cut, n);
                break;
            }
    }
    exact(s, "after insertion");
    mc::step();
    mc::outcome(hash_pop(s));
    destroy(s);
}

void mc::scenarios()
{
    const bool T = thorough();
    auto cat = catalog(true);
    Cfg dx;
    dx.cond = COND_TYPE_DGP;
    dx.a = 2;
    dx.x = 2;
    dx.pop = 5;
    dx.tweak = [](XCSF *s) { graph_param_set_evolve_cycles(s->cond->dargs, true); graph_param_set_max_t(s->cond->dargs, 4); };
    cat.push_back({ "dgp-cycles", dx, false, true });
    Cfg big;
    big.a = 3;
    big.x = 3;
    big.y = 2;
    big.pop = 12;
    big.cond = COND_TYPE_HYPERRECTANGLE_UBR;
    cat.push_back({ "ubr-big", big, false, true });
    for (auto &e : cat) {
        if (!e.importable) continue;
        Cfg c = e.c;
        c.subs = true;
        Opt o;
        o.seed = 71;
        o.leak = true;
        add("hist-" + e.name, o, [=] { body(c, T ? 5 : 3, false); });
        Opt r = o;
        r.bound = T ? 2 : 1;
        r.cap = T ? 40000 : 600;
        add("rng-" + e.name, r, [=] { body(c, T ? 4 : 3, true); });
        add("stats-" + e.name, o, [=] { stats(c); });
        add("reject-" + e.name, o, [=] { reject(c); });
        add("partial-" + e.name, o, [=] { partial(c); });
        add("text-" + e.name, o, [=] { text_level(c); });
    }
    for (auto &e : wide(true)) {
        if (!e.importable) continue;
        const Cfg c = e.c;
        Opt o;
        o.seed = 73;
        o.leak = true;
        for (int n : T ? vector<int>{ 40, 200, 1000 } : vector<int>{ 60 }) add("long" + std::to_string(n) + "-" + e.name, o, [=] { body(c, 1, false, n); });
    }
}
