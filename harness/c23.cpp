// C23: a configuration file sets exactly the parameters its JSON text states; the command-line program uses it.
#include <map>
#include "par.hpp"
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
#include "xcsf/config.h"
#include "xcsf/env.h"
int xcsf_main(int argc, char **argv);
}
using namespace xc;

static string path(const string &n)
{
    const char *d = getenv("MC_WORK");
    return string(d ? d : ".") + "/c23." + std::to_string(getpid()) + "." + n;
}
static void write(const string &f, const string &t)
{
    std::ofstream o(f, std::ios::binary);
    o << t;
}
static string slurp(const string &f)
{
    std::ifstream i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
static XCSF *blank(int x, int y, int a)
{
    XCSF *s = (XCSF *) malloc(sizeof(XCSF));
    param_init(s, x, y, a);
    return s;
}
static void drop(XCSF *s)
{
    param_free(s);
    free(s);
}
static string text(const XCSF *s)
{
    char *t = param_json_export(s);
    const string r = t;
    free(t);
    return r;
}
static string diff(const Pairs &a, const Pairs &b)
{
    if (a.size() != b.size()) return "the number of parameters differs";
    for (size_t i = 0; i < a.size(); ++i) {
        char m[200];
        snprintf(m, 200, "%s is %.17g, should be %.17g", a[i].first.c_str(), b[i].second, a[i].second);
        if (a[i].first != b[i].first || a[i].second != b[i].second) return m;
    }
    return "";
}
// the tokens of a JSON text
static vector<string> tokens(const string &t)
{
    vector<string> r;
    for (size_t i = 0; i < t.size();) {
        if (isspace((unsigned char) t[i])) ++i;
        else if (t[i] == '"') {
            size_t j = i + 1;
            while (t[j] != '"') j += t[j] == '\\' ? 2 : 1;
            r.push_back(t.substr(i, j + 1 - i));
            i = j + 1;
        } else if (strchr("{}[],:", t[i])) r.push_back(string(1, t[i++]));
        else {
            size_t j = i;
            while (j < t.size() && !isspace((unsigned char) t[j]) && !strchr("{}[],:", t[j])) ++j;
            r.push_back(t.substr(i, j - i));
            i = j;
        }
    }
    return r;
}
static string compact(const string &t)
{
    string r;
    for (const string &k : tokens(t)) r += k;
    return r;
}
// read a file with this content into a new system and compare with the bare text imported
static void reads(const Cfg &c, const string &bare, const string &file, const char *what)
{
    XCSF *a = blank(c.x, c.y, c.a), *b = blank(c.x, c.y, c.a);
    param_json_import(a, bare.c_str());
    const string f = path("json");
    write(f, file);
    config_read(b, f.c_str());
    mc::step();
    const string d = diff(effective(a), effective(b));
    const bool kept = slurp(f) == file;
    unlink(f.c_str());
    if (!d.empty()) mc::fail("layout", "%s: %s", what, d.c_str());
    if (!kept) mc::fail("file", "reading changed the file");
    mc::Hash h;
    for (auto &p : effective(b)) h.d(p.second);
    h.b(file.data(), file.size());
    mc::state(h.h);
    mc::validated();
    drop(a);
    drop(b);
}
static string many(char ch, int n) { return string((size_t) n, ch); }
static void layout(const Cfg &c)
{
    XCSF *s = blank(c.x, c.y, c.a);
    param_free(s);
    configure(s, c);
    const string pretty = text(s);
    drop(s);
    static const char *seps[] = { "", " ", "\n", "\r\n", "\t", "\n\n \t\n", "pretty", "long" };
    const int sep = mc::choose(8), com = mc::choose(9), end = mc::choose(5);
    mc::log("separator %d comment %d end %d ", sep, com, end);
    vector<string> comments = { "", "#", "# words", "  \t# indented", "# \"quoted\" {brace} [x], : # again", "# 'single \" odd quote", "#" + many('c', 124), "# " + many('d', 300), "# {\"pop_size\": 3}" };
    const string &k = comments[(size_t) com];
    string out;
    if (!k.empty()) out += k + "\n";
    if (sep == 6) {
        for (char ch : pretty) {
            if (ch == '\n' && !k.empty()) out += " " + k;
            out += ch;
        }
    } else {
        int i = 0;
        for (const string &t : tokens(pretty)) {
            out += t;
            out += sep == 7 ? many(' ', 150) : string(seps[sep]);
            if (!k.empty() && ++i % 3 == 0) out += k + (sep == 3 ? "\r\n" : "\n");
        }
    }
    static const char *ends[] = { "", "\n", "   ", "\n# the end", "\n\n\n" };
    out += ends[end];
    reads(c, compact(pretty), out, "layout");
}
// one line or comment of every length
static void lengths(int max)
{
    Cfg c;
    c.x = 2;
    const int n = mc::choose(max), how = mc::choose(7);
    mc::log("length %d kind %d ", n, how);
    const string bare = "{\"pop_size\":77,\"ea\":{\"lambda\":6},\"alpha\":0.25,\"condition\":{\"type\":\"ternary\",\"args\":{\"bits\":3}},\"population_file\":\"f\"}";
    string f;
    switch (how) {
        case 0: f = "#" + many('x', n) + "\n" + bare; break;
        case 1: f = bare + "#" + many('{', n); break;
        case 2: f = "{\"pop_size\":" + many(' ', n) + "77," + bare.substr(15); break;
        case 3: f = "{\"pop_size\":77," + many('\t', n) + "# c\n" + bare.substr(15); break;
        case 4: f = "{\"pop_size\":77, #" + many('"', n) + "\n" + bare.substr(15); break;
        case 5: f = many('\n', n) + bare; break;
        case 6: f = many(' ', n) + "# comment " + many('\\', n % 7) + "\r\n" + bare + many(' ', n); break;
    }
    reads(c, bare, f, "lengths");
}
// texts inside strings are kept as they are
static void inside()
{
    Cfg c;
    static const vector<string> v = { "my file.json", "a#b", "#", " x", "x ", "a\\tb", "q\\\"#q", "back\\\\", "\\\\\\\"#", "a  b   c", "{\\\"", "x]y}", "/tmp/a b/#1.json", "\\u0041" };
    const string &n = v[(size_t) mc::choose((int) v.size())];
    mc::log("name %s ", n.c_str());
    const int k = mc::choose(4);
    const string bare = "{\"pop_size\":77,\"population_file\":\"" + n + "\",\"beta\":0.5}";
    string f = k == 0 ? bare : k == 1 ? "{\"pop_size\":77,\n\"population_file\": \"" + n + "\" # name\n,\"beta\":0.5}\n" : k == 2 ? "# \"\n" + bare + " # \" end" : bare + "\n";
    reads(c, bare, f, "strings");
}
// one parameter alone sets that parameter and nothing else
static void single(bool both)
{
    struct One { const char *group, *name, *text, *key; double v; };
    static const vector<One> all = {
        { "", "x_dim", "7", "x_dim", 7 }, { "", "y_dim", "3", "y_dim", 3 }, { "", "n_actions", "5", "n_actions", 5 }, { "", "omp_num_threads", "3", "OMP_NUM_THREADS", 3 }, { "", "random_state", "12", "RANDOM_STATE", 12 },
        { "", "pop_init", "false", "POP_INIT", 0 }, { "", "max_trials", "123", "MAX_TRIALS", 123 }, { "", "perf_trials", "17", "PERF_TRIALS", 17 }, { "", "pop_size", "77", "POP_SIZE", 77 }, { "", "loss_func", "\"mse\"", "LOSS_FUNC", LOSS_MSE }, { "", "loss_func", "\"onehot\"", "LOSS_FUNC", LOSS_ONEHOT },
        { "", "gamma", "0.5", "GAMMA", 0.5 }, { "", "teletransportation", "9", "TELETRANSPORTATION", 9 }, { "", "p_explore", "0.25", "P_EXPLORE", 0.25 }, { "", "set_subsumption", "true", "SET_SUBSUMPTION", 1 }, { "", "theta_sub", "31", "THETA_SUB", 31 },
        { "", "e0", "0.125", "E0", 0.125 }, { "", "alpha", "0.75", "ALPHA", 0.75 }, { "", "nu", "3.5", "NU", 3.5 }, { "", "beta", "0.375", "BETA", 0.375 }, { "", "delta", "0.625", "DELTA", 0.625 }, { "", "theta_del", "13", "THETA_DEL", 13 },
        { "", "init_fitness", "0.5", "INIT_FITNESS", 0.5 }, { "", "init_error", "0.25", "INIT_ERROR", 0.25 }, { "", "m_probation", "44", "M_PROBATION", 44 }, { "", "stateful", "false", "STATEFUL", 0 }, { "", "compaction", "true", "COMPACTION", 1 },
        { "ea", "select_type", "\"tournament\"", "ea->select_type", EA_SELECT_TOURNAMENT }, { "ea", "theta_ea", "19", "ea->theta", 19 }, { "ea", "lambda", "8", "ea->lambda", 8 }, { "ea", "p_crossover", "0.25", "ea->p_crossover", 0.25 },
        { "ea", "err_reduc", "0.5", "ea->err_reduc", 0.5 }, { "ea", "fit_reduc", "0.75", "ea->fit_reduc", 0.75 }, { "ea", "subsumption", "true", "ea->subsumption", 1 }, { "ea", "pred_reset", "true", "ea->pred_reset", 1 },
        { "condition", "min", "-2.5", "cond->min", -2.5 }, { "condition", "max", "4.5", "cond->max", 4.5 }, { "condition", "spread_min", "0.75", "cond->spread_min", 0.75 }, { "condition", "eta", "0.25", "cond->eta", 0.25 },
        { "prediction", "x0", "0.5", "pred->x0", 0.5 }, { "prediction", "eta", "0.75", "pred->eta", 0.75 }, { "prediction", "evolve_eta", "false", "pred->evolve_eta", 0 }, { "prediction", "eta_min", "0.001953125", "pred->eta_min", 0.001953125 }, { "prediction", "eta_min", "0.25", "pred->eta_min", 0.25 },
    };
    static const vector<One> low = {
        { "", "x_dim", "1", "x_dim", 1 }, { "", "n_actions", "2", "n_actions", 2 }, { "", "omp_num_threads", "1", "OMP_NUM_THREADS", 1 }, { "", "random_state", "0", "RANDOM_STATE", 0 }, { "", "pop_init", "true", "POP_INIT", 1 }, { "", "max_trials", "1", "MAX_TRIALS", 1 }, { "", "perf_trials", "1", "PERF_TRIALS", 1 }, { "", "pop_size", "1", "POP_SIZE", 1 }, { "", "loss_func", "\"log\"", "LOSS_FUNC", LOSS_LOG },
        { "", "gamma", "0", "GAMMA", 0 }, { "", "teletransportation", "1", "TELETRANSPORTATION", 1 }, { "", "p_explore", "0", "P_EXPLORE", 0 }, { "", "set_subsumption", "false", "SET_SUBSUMPTION", 0 }, { "", "theta_sub", "1", "THETA_SUB", 1 }, { "", "e0", "0.0009765625", "E0", 0.0009765625 }, { "", "alpha", "0.0625", "ALPHA", 0.0625 }, { "", "nu", "1", "NU", 1 }, { "", "beta", "0.03125", "BETA", 0.03125 },
        { "", "delta", "0", "DELTA", 0 }, { "", "theta_del", "1", "THETA_DEL", 1 }, { "", "init_fitness", "0.0078125", "INIT_FITNESS", 0.0078125 }, { "", "init_error", "0", "INIT_ERROR", 0 }, { "", "m_probation", "0", "M_PROBATION", 0 }, { "", "stateful", "true", "STATEFUL", 1 }, { "", "compaction", "false", "COMPACTION", 0 },
        { "ea", "select_type", "\"roulette\"", "ea->select_type", EA_SELECT_ROULETTE }, { "ea", "theta_ea", "1", "ea->theta", 1 }, { "ea", "lambda", "2", "ea->lambda", 2 }, { "ea", "p_crossover", "0", "ea->p_crossover", 0 }, { "ea", "err_reduc", "0.125", "ea->err_reduc", 0.125 }, { "ea", "fit_reduc", "0.0625", "ea->fit_reduc", 0.0625 }, { "ea", "subsumption", "false", "ea->subsumption", 0 }, { "ea", "pred_reset", "false", "ea->pred_reset", 0 },
        { "condition", "min", "-0.5", "cond->min", -0.5 }, { "condition", "max", "0.5", "cond->max", 0.5 }, { "condition", "spread_min", "0.0625", "cond->spread_min", 0.0625 }, { "condition", "eta", "0", "cond->eta", 0 }, { "prediction", "x0", "0.0625", "pred->x0", 0.0625 }, { "prediction", "eta", "0.0625", "pred->eta", 0.0625 }, { "prediction", "evolve_eta", "true", "pred->evolve_eta", 1 },
    };
    auto member = [](const One &p, const string &nl) {
        const string g = p.group;
        string t = "\"" + string(p.name) + "\":" + nl + p.text + nl;
        return t;
    };
    if (both) { // two parameters, in either order: both hold
        const One &p = mc::flip() ? all[(size_t) mc::choose((int) all.size())] : low[(size_t) mc::choose((int) low.size())];
        const One &q = mc::flip() ? all[(size_t) mc::choose((int) all.size())] : low[(size_t) mc::choose((int) low.size())];
        if (string(p.key) == q.key) return;
        auto wrap = [](const string &g, const string &t) {
            return g == "ea" ? "\"ea\":{" + t + "}" : g == "condition" ? "\"condition\":{\"type\":\"hyperrectangle_csr\",\"args\":{" + t + "}}" : g == "prediction" ? "\"prediction\":{\"type\":\"nlms_linear\",\"args\":{" + t + "}}" : t;
        };
        const string a = member(p, ""), b = member(q, ""), gp = p.group, gq = q.group;
        const string t = gp == gq ? wrap(gp, a + "," + b) : wrap(gp, a) + "," + wrap(gq, b);
        mc::log("%s ", t.c_str());
        XCSF *s = blank(2, 1, 2);
        param_json_import(s, "{\"condition\":{\"type\":\"hyperrectangle_csr\"},\"prediction\":{\"type\":\"nlms_linear\"}}");
        const string f = path("two");
        write(f, "{" + t + "}\n");
        config_read(s, f.c_str());
        unlink(f.c_str());
        mc::step();
        std::map<string, double> is;
        for (const auto &e : effective(s)) is[e.first] = e.second;
        for (const One *o : { &p, &q })
            if (is.count(o->key) && is[o->key] != o->v) mc::fail("pair", "%s gives %s %.17g", t.c_str(), o->name, is[o->key]);
        mc::state(std::hash<string>()(t));
        drop(s);
        return;
    }
    const vector<One> &from = mc::flip() ? all : low;
    const One &p = from[(size_t) mc::choose((int) from.size())];
    const int how = mc::choose(4);
    mc::log("%s %s %s layout %d ", p.group, p.name, p.text, how);
    const string g = p.group, nl = how == 0 ? "" : how == 1 ? "\n" : how == 2 ? " # c\r\n" : "\n#\n\t";
    string t = member(p, nl);
    if (g == "ea") t = "\"ea\":{" + t + "}";
    if (g == "condition") t = "\"condition\":{\"type\":\"hyperrectangle_csr\",\"args\":{" + t + "}}";
    if (g == "prediction") t = "\"prediction\":{\"type\":\"nlms_linear\",\"args\":{" + t + "}}";
    XCSF *s = blank(2, 1, 2);
    if (mc::flip()) // everything else away from its default
        param_json_import(s, "{\"omp_num_threads\":5,\"random_state\":3,\"pop_init\":true,\"max_trials\":1000,\"perf_trials\":100,\"pop_size\":500,\"loss_func\":\"huber\",\"huber_delta\":2.5,\"gamma\":0.625,\"teletransportation\":60,\"p_explore\":0.5,\"set_subsumption\":false,\"theta_sub\":200,\"e0\":0.5,\"alpha\":0.875,\"nu\":2,\"beta\":0.75,\"delta\":0.5,\"theta_del\":40,\"init_fitness\":0.875,\"init_error\":0.625,\"m_probation\":70,\"stateful\":true,\"compaction\":false,\"ea\":{\"select_type\":\"roulette\",\"theta_ea\":70,\"lambda\":12,\"p_crossover\":0.5,\"err_reduc\":0.875,\"fit_reduc\":0.25,\"subsumption\":false,\"pred_reset\":false},\"condition\":{\"type\":\"hyperrectangle_csr\",\"args\":{\"min\":-5,\"max\":6,\"spread_min\":1.5,\"eta\":0.875}},\"prediction\":{\"type\":\"nlms_linear\",\"args\":{\"x0\":2.5,\"eta\":0.875,\"evolve_eta\":true,\"eta_min\":0.0625}}}");
    else
        param_json_import(s, "{\"condition\":{\"type\":\"hyperrectangle_csr\"},\"prediction\":{\"type\":\"nlms_linear\"}}");
    const Pairs a = effective(s);
    const string f = path("one");
    write(f, nl + "{" + nl + t + nl + "}");
    config_read(s, f.c_str());
    unlink(f.c_str());
    mc::step();
    std::map<string, double> was(a.begin(), a.end());
    bool seen = false;
    for (const auto &q : effective(s)) {
        if (q.first == p.key) {
            seen = true;
            if (q.second != p.v) mc::fail("value", "%s of %s gives %.17g", p.name, p.text, q.second);
        } else if (was.count(q.first) && q.first != "population_file" && was[q.first] != q.second && !(string(p.name) == "x_dim" && q.first.find("n_inputs") != string::npos))
            mc::fail("other", "%s changes %s from %.17g to %.17g", p.name, q.first.c_str(), was[q.first], q.second);
    }
    if (!seen) mc::fail("other", "%s is not in effect", p.name);
    mc::state(std::hash<string>()(t));
    mc::validated();
    drop(s);
}
// the order of the members does not matter
static void order()
{
    static const vector<vector<string>> pool = {
        { "\"x_dim\":3", "\"condition\":{\"type\":\"tree_gp\",\"args\":{\"n_constants\":7}}", "\"y_dim\":2", "\"prediction\":{\"type\":\"rls_linear\"}", "\"beta\":0.5" },
        { "\"x_dim\":3", "\"condition\":{\"args\":{\"n\":9,\"max_k\":1},\"type\":\"dgp\"}", "\"ea\":{\"lambda\":4,\"select_size\":0.5,\"select_type\":\"tournament\"}", "\"loss_func\":\"huber\"", "\"huber_delta\":0.5" },
        { "\"x_dim\":3", "\"condition\":{\"type\":\"neural\",\"args\":{\"layer_0\":{\"type\":\"connected\",\"activation\":\"relu\",\"n_init\":4},\"layer_1\":{\"type\":\"connected\",\"activation\":\"linear\",\"n_init\":1}}}", "\"n_actions\":4", "\"prediction\":{\"args\":{\"layer_0\":{\"n_init\":2,\"type\":\"connected\",\"activation\":\"linear\"}},\"type\":\"neural\"}", "\"y_dim\":2", "\"action\":{\"type\":\"neural\",\"args\":{\"layer_0\":{\"type\":\"softmax\",\"scale\":1}}}" },
        { "\"x_dim\":3", "\"condition\":{\"type\":\"neural\"}", "\"prediction\":{\"type\":\"neural\"}", "\"stateful\":false" },
        { "\"x_dim\":3", "\"condition\":{\"type\":\"rule_neural\",\"args\":{\"layer_0\":{\"type\":\"recurrent\",\"activation\":\"relu\",\"n_init\":4},\"layer_1\":{\"type\":\"connected\",\"activation\":\"linear\",\"n_init\":2}}}", "\"n_actions\":2", "\"alpha\":0.5" },
        { "\"random_state\":5", "\"omp_num_threads\":2", "\"pop_size\":50", "\"n_actions\":3", "\"gamma\":0.5" },
    };
    const size_t k = (size_t) mc::choose((int) pool.size());
    vector<string> left = pool[k];
    string want, got;
    for (const string &m : left) want += (want.empty() ? "{" : ",") + m;
    while (!left.empty()) {
        const size_t i = (size_t) mc::choose((int) left.size());
        got += (got.empty() ? "{\n" : ",\n") + left[i];
        left.erase(left.begin() + (long) i);
    }
    mc::log("%s ", got.c_str());
    Cfg c;
    c.x = 2;
    c.a = 2;
    reads(c, want + "}", got + "\n}\n", "order");
}
// the order of the arguments of a component, for every combination of two values each
static void order_args()
{
    struct Two { const char *name, *a, *b; };
    struct Comp { const char *what, *type; vector<Two> args; };
    static const vector<Comp> comps = {
        { "condition", "hyperrectangle_ubr", { { "eta", "0", "0.75" }, { "min", "-3", "2" }, { "max", "2.5", "7" }, { "spread_min", "0.0625", "0.5" } } },
        { "condition", "hyperellipsoid", { { "eta", "0", "0.75" }, { "min", "-3", "2" }, { "max", "2.5", "7" }, { "spread_min", "0.0625", "0.5" } } },
        { "condition", "ternary", { { "bits", "1", "7" }, { "p_dontcare", "0.125", "0.875" } } },
        { "condition", "tree_gp", { { "min_constant", "-3", "0.5" }, { "max_constant", "0.75", "4" }, { "n_constants", "1", "150" }, { "init_depth", "1", "9" }, { "max_len", "50", "20000" } } },
        { "condition", "dgp", { { "max_k", "1", "6" }, { "max_t", "2", "20" }, { "n", "2", "40" }, { "evolve_cycles", "false", "true" } } },
        { "prediction", "nlms_quadratic", { { "x0", "0.125", "3" }, { "eta", "0.03125", "0.75" }, { "evolve_eta", "false", "true" }, { "eta_min", "0.0009765625", "0.5" } } },
        { "prediction", "rls_linear", { { "x0", "0.125", "3" }, { "scale_factor", "2", "5000" }, { "lambda", "0.5", "1" } } },
    };
    const Comp &k = comps[(size_t) mc::choose((int) comps.size())];
    vector<string> left;
    for (const Two &t : k.args) left.push_back("\"" + string(t.name) + "\":" + (mc::flip() ? t.a : t.b));
    const string head = "{\"" + string(k.what) + "\":{\"type\":\"" + k.type + "\",\"args\":{";
    string want, got;
    for (const string &m : left) want += (want.empty() ? "" : ",") + m;
    while (!left.empty()) {
        const size_t i = (size_t) mc::choose((int) left.size());
        got += (got.empty() ? "" : ",\n") + left[i];
        left.erase(left.begin() + (long) i);
    }
    mc::log("%s %s ", k.type, got.c_str());
    Cfg c;
    c.x = 2;
    c.a = 2;
    reads(c, head + want + "}}}", head + got + "}}}\n", "order of arguments");
}
// the order of the members of a layer: rotated and reversed
static void order_layer()
{
    static const vector<vector<string>> kinds = {
        { "\"type\":\"connected\"", "\"activation\":\"relu\"", "\"n_init\":3", "\"n_max\":9", "\"max_neuron_grow\":2", "\"evolve_neurons\":true", "\"evolve_weights\":true", "\"evolve_functions\":true", "\"evolve_connect\":true", "\"sgd_weights\":true", "\"eta\":0.25", "\"evolve_eta\":true", "\"eta_min\":0.125", "\"momentum\":0.5", "\"decay\":0.0625" },
        { "\"type\":\"lstm\"", "\"activation\":\"tanh\"", "\"recurrent_activation\":\"logistic\"", "\"n_init\":3", "\"n_max\":9", "\"max_neuron_grow\":9", "\"evolve_neurons\":true", "\"sgd_weights\":true", "\"eta\":0.75", "\"momentum\":0.25", "\"decay\":0" },
        { "\"type\":\"recurrent\"", "\"activation\":\"selu\"", "\"n_init\":2", "\"sgd_weights\":true", "\"eta\":0.0625", "\"evolve_eta\":true", "\"eta_min\":0.03125", "\"momentum\":0", "\"decay\":0.5" },
        { "\"type\":\"dropout\"", "\"probability\":0.25", "\"n_inputs\":2" },
        { "\"type\":\"softmax\"", "\"scale\":0.5" },
    };
    const vector<string> &k = kinds[(size_t) mc::choose((int) kinds.size())];
    const int n = (int) k.size(), rot = mc::choose(n), back = mc::choose(2), sw = mc::choose(n);
    vector<string> v;
    for (int i = 0; i < n; ++i) v.push_back(k[(size_t) ((i + rot) % n)]);
    if (back) std::reverse(v.begin(), v.end());
    std::swap(v[0], v[(size_t) sw]);
    string want, got;
    for (int i = 0; i < n; ++i) {
        want += (i ? "," : "") + k[(size_t) i];
        got += (i ? ", " : "") + v[(size_t) i];
    }
    const string head = "{\"prediction\":{\"type\":\"neural\",\"args\":{\"layer_0\":{", tail = "},\"layer_1\":{\"type\":\"connected\",\"activation\":\"linear\",\"n_init\":1}}}}";
    mc::log("%s ", got.c_str());
    Cfg c;
    c.x = 2;
    c.a = 2;
    reads(c, head + want + tail, head + got + tail, "order of layer members");
}
static bool refused(const string &t)
{
    const string f = path("bad");
    write(f, t);
    const bool r = mc::rejects([&] {
        XCSF *s = blank(2, 1, 2);
        config_read(s, f.c_str());
    });
    unlink(f.c_str());
    mc::step();
    mc::state(std::hash<string>()(t));
    return r;
}
static const char *BASE = "{ # top\n \"pop_size\": 77, \"set_subsumption\": true,\n # mid\n \"ea\": {\"lambda\": 6, \"select_type\": \"tournament\"},\n \"condition\": {\"type\": \"ternary\", \"args\": {\"bits\": 3}}, # q\n \"prediction\": {\"type\": \"nlms_linear\", \"args\": {\"eta\": 0.5}}\n}";

// ---- the command line ----
struct Out {
    int status;
    string text;
};
static Out command(const vector<string> &args, const string &cwd)
{
    const string f = path("out");
    const bool failed = mc::rejects([&] {
        const int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 1);
        if (!cwd.empty() && chdir(cwd.c_str()) != 0) abort();
        vector<char *> v;
        for (const string &a : args) v.push_back(strdup(a.c_str()));
        v.push_back(nullptr);
        const int r = xcsf_main((int) args.size(), v.data());
        fflush(stdout);
        if (r) _exit(r);
    });
    const string t = slurp(f);
    unlink(f.c_str());
    mc::step();
    return { failed, t };
}
static void cli()
{
    const string dir = path("dir");
    mkdir(dir.c_str(), 0700);
    const int prob = mc::choose(3), conf = mc::choose(4), bin = conf >= 1 ? mc::choose(2) : 0;
    static const char *names[] = { "mp", "maze", "csv" };
    string arg = "6";
    if (prob == 1) {
        arg = dir + "/m.txt";
        write(arg, "*O*\n*F*\nOOO\n");
    } else if (prob == 2) {
        arg = dir + "/data";
        for (const char *p : { "_train_x.csv", "_test_x.csv" }) write(arg + p, "0.1,0.2\n0.3,0.4\n0.5,0.6\n");
        for (const char *p : { "_train_y.csv", "_test_y.csv" }) write(arg + p, "1\n0\n1\n");
    }
    const int max = mc::picki({ 10, 11 }), perf = mc::picki({ 2, 5 });
    const string cfg = "{ # c\n\"max_trials\": " + std::to_string(max) + ", \"perf_trials\": " + std::to_string(perf) + ",\n\"pop_size\": 33, \"alpha\": 0.5, \"random_state\": 4, \"prediction\": {\"type\": \"constant\"} }\n";
    const string bare = "{\"max_trials\": " + std::to_string(max) + ", \"perf_trials\": " + std::to_string(perf) + ",\"pop_size\": 33, \"alpha\": 0.5, \"random_state\": 4, \"prediction\": {\"type\": \"constant\"} }";
    mc::log("%s configuration %d saved %d trials %d/%d ", names[prob], conf, bin, max, perf);
    vector<string> args = { "xcsf", names[prob], arg };
    if (conf == 0) write(dir + "/default.json", cfg); // no argument: default.json of the working directory
    if (conf >= 1) {
        write(dir + "/given.json", cfg);
        args.push_back(conf == 3 ? "given.json" : dir + "/given.json");
    }
    if (conf == 2) write(dir + "/default.json", "{\"pop_size\": 1}"); // must be ignored
    // what the program must say its parameters are
    XCSF *s = (XCSF *) malloc(sizeof(XCSF));
    vector<char *> av;
    for (const string &a : args) av.push_back((char *) a.c_str());
    av.push_back(nullptr);
    env_init(s, av.data());
    param_json_import(s, bare.c_str());
    string want = text(s);
    int elements = 0;
    if (bin) { // a saved system with other parameters
        XCSF *o = (XCSF *) malloc(sizeof(XCSF));
        param_init(o, s->x_dim, s->y_dim, s->n_actions);
        param_json_import(o, bare.c_str());
        param_set_beta(o, 0.375);
        param_set_pop_size(o, 9);
        xcsf_init(o);
        elements = (int) xcsf_save(o, (dir + "/saved.bin").c_str());
        want = text(o);
        xcsf_free(o);
        drop(o);
        args.push_back(dir + "/saved.bin");
    }
    env_free(s);
    drop(s);
    const Out r = command(args, dir);
    if (r.status != 0) mc::fail("status", "the program ended with status %d: %s", r.status, r.text.substr(0, 300).c_str());
    // its parameters, then a line per period
    const size_t a = r.text.find('{'), b = r.text.rfind('}');
    if (a == string::npos || b == string::npos) mc::fail("parameters", "the program does not print its parameters");
    if (compact(r.text.substr(a, b + 1 - a)) != compact(want)) mc::fail("parameters", "the program runs with\n%s\ninstead of\n%s", r.text.substr(a, b + 1 - a).c_str(), want.c_str());
    if (bin && r.text.substr(0, a).find(std::to_string(elements)) == string::npos) mc::fail("loaded", "loaded elements should be %d: %s", elements, r.text.substr(0, a).c_str());
    std::istringstream lines(r.text.substr(b + 1));
    string l;
    int n = 0, limit = bin ? 9 : 33;
    while (std::getline(lines, l)) {
        double v[4];
        const int k = sscanf(l.c_str(), "%lf %lf %lf %lf", v, v + 1, v + 2, v + 3);
        if (k < 1) continue;
        ++n;
        if (k != 4 || v[0] != n * perf || v[3] < 0 || v[3] > limit) mc::fail("lines", "line %d of the results: %s", n, l.c_str());
    }
    if (n != max / perf && n != (max - 1) / perf) mc::fail("lines", "%d lines of results for %d trials reported every %d", n, max, perf);
    mc::Hash h;
    h.b(r.text.data(), r.text.size());
    mc::outcome(h.h);
    mc::state(h.h);
    mc::validated();
    for (const char *f : { "/m.txt", "/data_train_x.csv", "/data_test_x.csv", "/data_train_y.csv", "/data_test_y.csv", "/default.json", "/given.json", "/saved.bin" }) unlink((dir + f).c_str());
    rmdir(dir.c_str());
}
static void cli_bad()
{
    static const vector<vector<string>> bad = {
        { "xcsf" }, { "xcsf", "mp" }, { "xcsf", "mp", "6", "/nonexistent.json", "b", "c" }, { "xcsf", "nosuch", "6" }, { "xcsf", "maze", "/nonexistent" }, { "xcsf", "csv", "/nonexistent" },
        { "xcsf", "mp", "6", "bad.json" }, { "xcsf", "mp", "6", "good.json", "/nonexistent" },
    };
    const auto &a = bad[(size_t) mc::choose((int) bad.size())];
    const string dir = path("dir");
    mkdir(dir.c_str(), 0700);
    write(dir + "/bad.json", "{\"pop_size\": }");
    write(dir + "/good.json", "{\"pop_size\": 5, \"max_trials\": 3}");
    const Out r = command(a, dir);
    unlink((dir + "/bad.json").c_str());
    unlink((dir + "/good.json").c_str());
    rmdir(dir.c_str());
    if (r.status == 0) mc::fail("status", "a wrong command line ended with status %d", r.status);
    if (r.text.empty()) mc::fail("silent", "a wrong command line is refused without a message");
    mc::state(r.text.size());
}

void mc::scenarios()
{
    const bool T = thorough();
    for (const auto &e : catalog(true)) {
        Opt o;
        o.leak = true;
        const Cfg c = e.c;
        add("layout-" + e.name, o, [=] { layout(c); });
    }
    {
        Opt o;
        o.leak = true;
        add("lengths", o, [=] { lengths(T ? 5000 : 700); });
        add("strings", o, [=] { inside(); });
        add("single", o, [=] { single(false); });
        add("order", o, [=] { order(); });
        add("order-args", o, [=] { order_args(); });
        add("order-layer", o, [=] { order_layer(); });
        add("pairs", o, [=] { single(true); });
    }
    add("truncated", Opt(), [] {
        const string t = mc::flip() ? string(BASE) : compact("{\"pop_size\": 77, \"ea\": {\"lambda\": 6}}");
        const int n = mc::choose((int) t.size());
        mc::log("first %d characters ", n);
        if (!refused(t.substr(0, (size_t) n))) mc::fail("truncated", "an incomplete file is accepted: %s", t.substr(0, (size_t) n).c_str());
    });
    add("damaged", Opt(), [] {
        // one structural character lost, doubled or replaced
        const string t = BASE;
        vector<size_t> at;
        for (size_t i = 0; i < t.size(); ++i)
            if (strchr("{}\",:#", t[i])) at.push_back(i);
        const size_t i = at[(size_t) mc::choose((int) at.size())];
        const int how = mc::choose(3);
        mc::log("character %zu (%c) %s ", i, t[i], how == 0 ? "lost" : how == 1 ? "doubled" : "replaced");
        if (how == 1 && t[i] == '#') return;
        const string u = t.substr(0, i) + (how == 0 ? "" : how == 1 ? string(2, t[i]) : ";") + t.substr(i + 1);
        if (!refused(u)) mc::fail("damaged", "accepted: %s", u.c_str());
    });
    add("after", Opt(), [] {
        static const char *more[] = { "}", "{", "x", ",", ", \"beta\": 0.5 }", "{\"beta\": 0.5}", "\"", "]", "0", "null", "// c", "\n\nend", " # c\n }" };
        const string t = string(mc::flip() ? BASE : "{\"pop_size\": 5}") + (mc::flip() ? "\n" : " ") + more[mc::choose(13)];
        if (!refused(t)) mc::fail("after", "text after the configuration is ignored: %s", t.c_str());
    });
    add("illegal", Opt(), [] {
        static const vector<string> bad = {
            "", " ", "\n", "#", "# only\n", "[1]", "1", "\"x\"", "null", "true", "[{\"pop_size\": 5}]", "{\"nosuch\": 1}", "{\"pop_size\": \"ten\"}", "{\"pop_size\": 0}", "{\"pop_size\": [5]}", "{\"pop_size\": null}",
            "{\"ea\": 5}", "{\"ea\": [1]}", "{\"ea\": \"x\"}", "{\"ea\": {\"nosuch\": 1}}", "{\"condition\": 5}", "{\"condition\": [1]}", "{\"condition\": {}}", "{\"condition\": {\"type\": 3}}", "{\"condition\": {\"type\": \"nosuch\"}}",
            "{\"condition\": {\"type\": \"ternary\", \"args\": [1]}}", "{\"condition\": {\"type\": \"ternary\", \"args\": {\"nosuch\": 1}}}", "{\"condition\": {\"type\": \"neural\", \"args\": [1]}}", "{\"condition\": {\"type\": \"neural\", \"args\": {\"layer_0\": [1]}}}", "{\"prediction\": {\"type\": \"neural\", \"args\": {\"layer_0\": [1]}}}", "{\"action\": {\"type\": \"neural\", \"args\": {\"layer_0\": [1, 2]}}}",
            "{\"condition\": {\"type\": \"dgp\", \"args\": [1]}}", "{\"condition\": {\"type\": \"tree_gp\", \"args\": [1]}}", "{\"condition\": {\"type\": \"hyperrectangle_csr\", \"args\": [1]}}", "{\"action\": {\"type\": \"neural\", \"args\": [1]}}",
            "{\"prediction\": {\"type\": \"nlms_linear\", \"args\": [1]}}", "{\"prediction\": {\"type\": \"rls_linear\", \"args\": [1]}}", "{\"prediction\": {\"type\": \"neural\", \"args\": [1]}}", "{\"prediction\": []}",
            "{'pop_size': 5}", "{pop_size: 5}", "{\"pop_size\" 5}", "{\"pop_size\": 5,}", "{\"pop_size\": 5 \"alpha\": 1}", "{\"a#\": 5}", "// c\n{\"pop_size\": 5}",
        };
        const string &t = bad[(size_t) mc::choose((int) bad.size())];
        mc::log("%s ", t.c_str());
        if (!refused(t)) mc::fail("illegal", "accepted: %s", t.c_str());
    });
    add("missing", Opt(), [] {
        XCSF *s = blank(2, 1, 2);
        param_set_pop_size(s, 41);
        const Pairs a = effective(s);
        config_read(s, mc::flip() ? "/nonexistent/file.json" : path("none").c_str());
        const string d = diff(a, effective(s));
        if (!d.empty()) mc::fail("missing", "a missing file changes the parameters: %s", d.c_str());
        mc::step();
        mc::state(1);
        drop(s);
    });
    add("directory", Opt(), [] {
        if (!mc::rejects([] { XCSF *s = blank(2, 1, 2); config_read(s, getenv("MC_WORK")); })) mc::fail("directory", "a directory is read as a configuration");
        mc::step();
        mc::state(1);
    });
    add("shipped", Opt(), [] {
        Cfg c;
        c.a = 2;
        const string t = slurp(string(getenv("MC_REPO")) + "/cfg/default.json");
        reads(c, compact(t), t, "default.json");
    });
    add("command", Opt(), [] { cli(); });
    add("command-bad", Opt(), [] { cli_bad(); });
}
