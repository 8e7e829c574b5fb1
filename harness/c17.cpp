// C17: the built-in environments present their problems faithfully.
#include "xc.hpp"
extern "C" {
#include "xcsf/env.h"
#include "xcsf/env_csv.h"
#include "xcsf/env_maze.h"
#include "xcsf/env_mux.h"
}
#include <dirent.h>
#include <set>
#include <unistd.h>
using namespace xc;

static XCSF *fresh()
{
    XCSF *s = (XCSF *) malloc(sizeof(XCSF));
    memset(s, 0xAB, sizeof(XCSF));
    return s;
}
static void gone(XCSF *s)
{
    env_free(s);
    param_free(s);
    free(s);
}
static XCSF *open_env(const char *kind, const string &arg)
{
    XCSF *s = fresh();
    char a0[] = "xcsf";
    string k = kind, v = arg;
    char *argv[] = { a0, &k[0], &v[0], nullptr };
    env_init(s, argv);
    return s;
}
static string tmp(const string &suffix) { return "e" + std::to_string(getpid()) + suffix; }
static void put(const string &f, const string &text)
{
    FILE *fp = fopen(f.c_str(), "wb");
    fwrite(text.data(), 1, text.size(), fp);
    fclose(fp);
}

// ---------------------------------------------------------------- multiplexer
static int mux_bits(int asked, int &addr)
{
    addr = 0;
    while (addr + 1 + (1 << (addr + 1)) <= asked) ++addr;
    return addr + (1 << addr);
}
static void mux_check(const XCSF *s, const double *x, int n, int addr)
{
    int p = 0;
    for (int i = 0; i < n; ++i)
        if (!(x[i] >= 0 && x[i] <= 1)) mc::fail("mux-state", "input %d of the presented state is %g", i, x[i]);
    for (int i = 0; i < addr; ++i) p = 2 * p + (x[i] > 0.5);
    const int right = x[addr + p] > 0.5;
    const V copy(x, x + n);
    for (int rep = 0; rep < 2; ++rep)
        for (int act = 0; act < 2; ++act) {
            const double r = env_execute(s, act);
            const double want = act == right ? env_max_payoff(s) : 0;
            if (r != want) mc::fail("mux-reward", "state %s (address selects bit %d, which is %d): action %d pays %g, expected %g", str(copy).c_str(), addr + p, right, act, r, want);
            if (!env_is_done(s)) mc::fail("mux-end", "the problem does not end after one step");
        }
    for (int i = 0; i < n; ++i)
        if (x[i] != copy[(size_t) i]) mc::fail("mux-changed", "executing an action changed the presented state");
    mc::step();
    mc::validated();
}
static void mux(int asked, double lo, double hi, int nfree, int part = 0, int parts = 1)
{
    XCSF *s = open_env("mp", std::to_string(asked));
    int addr;
    const int n = mux_bits(asked, addr);
    if (s->x_dim != n || s->y_dim != 1 || s->n_actions != 2) mc::fail("mux-dims", "%d-bit multiplexer: %d inputs, %d outputs, %d actions; expected %d, 1, 2", asked, s->x_dim, s->y_dim, s->n_actions, n);
    if (env_multistep(s)) mc::fail("mux-step", "the multiplexer claims to be a multi-step problem");
    if (!(env_max_payoff(s) > 0)) mc::fail("mux-max", "maximum payoff %g", env_max_payoff(s));
    std::set<V> seen;
    const long total = 1L << nfree;
    for (long m = total / parts * part; m < total / parts * (part + 1); ++m) {
        V draws;
        for (int i = 0; i < n; ++i) draws.push_back((m >> (i % nfree)) & 1 ? hi : lo);
        env_reset(s);
        mc::script(draws);
        const double *x = env_get_state(s);
        mux_check(s, x, n, addr);
        V b;
        mc::Hash h;
        for (int i = 0; i < n; ++i) b.push_back(x[i] > 0.5);
        h.v(b);
        mc::state(h.h);
        seen.insert(b);
    }
    if (nfree == n && (long) seen.size() != total / parts) mc::fail("mux-cover", "%zu different problem instances can be presented, expected %ld", seen.size(), total / parts);
    gone(s);
}

// every address with every data word that has exactly one bit set, or exactly one bit clear
static void mux_single(int asked, double lo, double hi)
{
    XCSF *s = open_env("mp", std::to_string(asked));
    int addr;
    const int n = mux_bits(asked, addr), words = 1 << addr;
    if (s->x_dim != n) mc::fail("mux-dims", "%d-bit multiplexer: %d inputs, expected %d", asked, s->x_dim, n);
    for (int a = 0; a < words; ++a)
        for (int d = 0; d < words; ++d)
            for (int inv = 0; inv < 2; ++inv) {
                V draws;
                for (int i = 0; i < addr; ++i) draws.push_back((a >> i) & 1 ? hi : lo);
                for (int i = 0; i < words; ++i) draws.push_back((i == d) != (inv == 1) ? hi : lo);
                env_reset(s);
                mc::script(draws);
                const double *x = env_get_state(s);
                mux_check(s, x, n, addr);
                mc::Hash h;
                for (int i = 0; i < n; ++i) h.i(x[i] > 0.5);
                mc::state(h.h);
            }
    gone(s);
}

// ---------------------------------------------------------------- maze
static double sensor(char c)
{
    switch (c) {
        case '*': return 0.1;
        case 'O': return 0.3;
        case 'G': return 0.5;
        case 'F': return 0.7;
        case 'Q': return 0.9;
    }
    return -1;
}
typedef vector<string> Maze;
static const int MX[8] = { 0, 1, 1, 1, 0, -1, -1, -1 }, MY[8] = { -1, -1, 0, 1, 1, 1, 0, -1 };
static string show(const Maze &m)
{
    string s;
    for (auto &r : m) s += (s.empty() ? "" : "/") + r;
    return s;
}
static void maze_check(XCSF *s, const Maze &m, bool every_reset)
{
    const int h = (int) m.size(), w = (int) m[0].size();
    EnvMaze *e = (EnvMaze *) s->env;
    if (s->x_dim != 8 || s->n_actions != 8 || s->y_dim != 1) mc::fail("maze-dims", "maze has %d inputs, %d actions, %d outputs", s->x_dim, s->n_actions, s->y_dim);
    if (!env_multistep(s)) mc::fail("maze-step", "the maze claims to be a single-step problem");
    if (e->xsize != w || e->ysize != h) mc::fail("maze-size", "maze %s: size %d x %d, the file has %d x %d", show(m).c_str(), e->xsize, e->ysize, w, h);
    auto at = [&](int x, int y) { return m[(size_t) ((y + h) % h)][(size_t) ((x + w) % w)]; };
    auto senses = [&](const char *when) {
        const double *o = env_get_state(s);
        int k = 0;
        for (int dy = -1; dy <= 1; ++dy)
            for (int dx = -1; dx <= 1; ++dx) {
                if (!dx && !dy) continue;
                const char c = at(e->xpos + dx, e->ypos + dy);
                if (o[k] != sensor(c)) mc::fail("maze-sense", "maze %s at (%d,%d) %s: sensor %d reads %g, the cell is %c (%g)", show(m).c_str(), e->xpos, e->ypos, when, k, o[k], c, sensor(c));
                ++k;
            }
    };
    std::set<std::pair<int, int>> free_cells, landed;
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x)
            if (at(x, y) == '*') free_cells.insert({ x, y });
    // restarts
    V us, vs;
    for (int x = 0; x < w; ++x) us.push_back((x + 0.5) / w);
    for (int y = 0; y < h; ++y) vs.push_back((y + 0.5) / h);
    us.push_back(0); us.push_back(1 - 1e-13);
    vs.push_back(0); vs.push_back(1 - 1e-13);
    for (double u : us)
        for (double v : vs) {
            e->done = true;
            mc::script({ u, v });
            env_reset(s);
            if (e->xpos < 0 || e->xpos >= w || e->ypos < 0 || e->ypos >= h || at(e->xpos, e->ypos) != '*') mc::fail("maze-reset", "maze %s: restarted at (%d,%d), which is not a free cell", show(m).c_str(), e->xpos, e->ypos);
            if (env_is_done(s)) mc::fail("maze-reset", "maze %s: the restarted trial is already over", show(m).c_str());
            landed.insert({ e->xpos, e->ypos });
        }
    mc::script({});
    if (every_reset && landed != free_cells) mc::fail("maze-starts", "maze %s: %zu of its %zu free cells can be a starting position", show(m).c_str(), landed.size(), free_cells.size());
    // every position, every move
    for (auto &p : free_cells)
        for (int a = 0; a < 8; ++a) {
            e->xpos = p.first;
            e->ypos = p.second;
            e->done = false;
            senses("before moving");
            const double r = env_execute(s, a);
            int nx = (p.first + MX[a] + w) % w, ny = (p.second + MY[a] + h) % h;
            const char c = at(nx, ny);
            const bool food = c == 'F' || c == 'G';
            if (!food && c != '*') nx = p.first, ny = p.second;
            if (e->xpos != nx || e->ypos != ny) mc::fail("maze-move", "maze %s: from (%d,%d), action %d towards %c led to (%d,%d), expected (%d,%d)", show(m).c_str(), p.first, p.second, a, c, e->xpos, e->ypos, nx, ny);
            if (r != (food ? env_max_payoff(s) : 0)) mc::fail("maze-reward", "maze %s: from (%d,%d), action %d onto %c paid %g", show(m).c_str(), p.first, p.second, a, c, r);
            if (env_is_done(s) != food) mc::fail("maze-end", "maze %s: from (%d,%d), action %d onto %c: the trial is %s", show(m).c_str(), p.first, p.second, a, c, food ? "not over" : "over");
            senses("after moving");
            // a second, blocked or free, step from here keeps the rules (the flag never comes back by itself)
            if (!food)
                for (int b = 0; b < 8; ++b) {
                    e->xpos = nx;
                    e->ypos = ny;
                    const char d = at(nx + MX[b], ny + MY[b]);
                    const double q = env_execute(s, b);
                    const bool f2 = d == 'F' || d == 'G';
                    if (env_is_done(s) != f2 || q != (f2 ? env_max_payoff(s) : 0)) mc::fail("maze-second", "maze %s: second action %d onto %c paid %g and the trial is %s", show(m).c_str(), b, d, q, env_is_done(s) ? "over" : "not over");
                    e->done = false;
                    if (w * h > 9) break;
                }
            mc::step();
        }
    mc::validated();
}
static Maze lines(const string &t)
{
    Maze m;
    string cur;
    for (char c : t) {
        if (c == '\n') {
            if (!cur.empty()) m.push_back(cur);
            cur.clear();
        } else if (c != '\r') cur += c;
    }
    if (!cur.empty()) m.push_back(cur);
    return m;
}
static void small(int w, int h, const string &alpha, const string &first)
{
    // every maze whose first cells are `first`
    const int n = w * h, rest = n - (int) first.size();
    long total = 1;
    for (int i = 0; i < rest; ++i) total *= (long) alpha.size();
    const string f = tmp(".txt");
    for (long k = 0; k < total; ++k) {
        string cells = first;
        for (long q = k, i = 0; i < rest; ++i, q /= (long) alpha.size()) cells += alpha[(size_t) (q % (long) alpha.size())];
        if (cells.find('*') == string::npos) continue;
        string t;
        Maze m;
        for (int y = 0; y < h; ++y) {
            m.push_back(cells.substr((size_t) (y * w), (size_t) w));
            t += m.back() + "\n";
        }
        put(f, t);
        XCSF *s = open_env("maze", f);
        maze_check(s, m, true);
        gone(s);
        mc::Hash hh;
        hh.b(t.data(), t.size());
        mc::state(hh.h);
    }
    unlink(f.c_str());
}
static void shipped(const string &file)
{
    FILE *fp = fopen(file.c_str(), "rb");
    if (!fp) return;
    string t;
    char b[4096];
    size_t k;
    while ((k = fread(b, 1, sizeof(b), fp)) > 0) t.append(b, k);
    fclose(fp);
    XCSF *s = open_env("maze", file);
    maze_check(s, lines(t), true);
    gone(s);
}
// a text that may be refused; if it is accepted it must be presented faithfully
static void odd(const string &text, int must) // must: 1 accept, 0 reject, -1 either
{
    const string f = tmp(".txt");
    put(f, text);
    const bool no = mc::rejects([&] {
        XCSF *s = open_env("maze", f);
        gone(s);
    });
    if (no && must == 1) mc::fail("maze-refused", "a well-formed maze was refused");
    if (!no && must == 0) mc::fail("maze-accepted", "a malformed maze was accepted: %.60s", text.c_str());
    if (!no) {
        Maze m = lines(text);
        for (auto &r : m)
            if (r.size() != m[0].size()) mc::fail("maze-accepted", "a maze with rows of different lengths was accepted");
        XCSF *s = open_env("maze", f);
        maze_check(s, m, m.size() * m[0].size() < 600);
        gone(s);
    }
    unlink(f.c_str());
}

// ---------------------------------------------------------------- csv
static string table(int rows, int cols, const vector<string> &vals, int start, const string &eol, bool last, V &out)
{
    string t;
    int k = start;
    for (int i = 0; i < rows; ++i) {
        for (int j = 0; j < cols; ++j, ++k) {
            const string &v = vals[(size_t) k % vals.size()];
            t += (j ? "," : "") + v;
            out.push_back(strtod(v.c_str(), nullptr));
        }
        if (i + 1 < rows || last) t += eol;
    }
    return t;
}
static void same(const char *what, const double *d, const V &want)
{
    for (size_t i = 0; i < want.size(); ++i)
        if (d[i] != want[i]) mc::fail("csv-value", "%s: value %zu is %.17g, the file says %.17g", what, i, d[i], want[i]);
}
static const vector<string> FORMS = { "0.5", "-1.25", "3", "1e-7", "-2.5E+3", "0.1234567890123456789", "0", "+7", "123456.75", "-0.001" };
static void csv_ok(int rows, int rows2, int xc, int yc, int start, const string &eol, bool last, const string &trail, int must)
{
    const string base = tmp("d");
    V tx, ty, sx, sy;
    put(base + "_train_x.csv", table(rows, xc, FORMS, start, eol, last, tx) + trail);
    put(base + "_train_y.csv", table(rows, yc, FORMS, start + 3, eol, last, ty) + trail);
    put(base + "_test_x.csv", table(rows2, xc, FORMS, start + 5, eol, last, sx) + trail);
    put(base + "_test_y.csv", table(rows2, yc, FORMS, start + 7, eol, last, sy) + trail);
    const bool no = must == 1 ? false : mc::rejects([&] {
        XCSF *s = open_env("csv", base);
        gone(s);
    });
    if (!no) {
        XCSF *s = open_env("csv", base);
        const EnvCSV *e = (const EnvCSV *) s->env;
        if (s->x_dim != xc || s->y_dim != yc || s->n_actions != 1) mc::fail("csv-dims", "%d inputs, %d outputs, %d actions; the files have %d and %d columns", s->x_dim, s->y_dim, s->n_actions, xc, yc);
        const Input *tr = e->train_data, *te = e->test_data;
        if (tr->n_samples != rows || te->n_samples != rows2) mc::fail("csv-rows", "%d training and %d test samples; the files have %d and %d rows", tr->n_samples, te->n_samples, rows, rows2);
        if (tr->x_dim != xc || te->x_dim != xc || tr->y_dim != yc || te->y_dim != yc) mc::fail("csv-dims", "data sets with %d/%d inputs and %d/%d outputs", tr->x_dim, te->x_dim, tr->y_dim, te->y_dim);
        same("training inputs", tr->x, tx);
        same("training targets", tr->y, ty);
        same("test inputs", te->x, sx);
        same("test targets", te->y, sy);
        if (env_multistep(s) || !env_is_done(s)) mc::fail("csv-step", "a data set must be a single-step problem");
        gone(s);
        mc::Hash h;
        h.v(tx); h.v(ty); h.v(sx); h.v(sy);
        mc::state(h.h);
    }
    for (const char *x : { "_train_x.csv", "_train_y.csv", "_test_x.csv", "_test_y.csv" }) unlink((base + x).c_str());
    mc::step();
    mc::validated();
}
// four texts that do not belong together: they must be refused
static void csv_bad(const char *what, const string &a, const string &b, const string &c, const string &d)
{
    const string base = tmp("d");
    put(base + "_train_x.csv", a);
    put(base + "_train_y.csv", b);
    put(base + "_test_x.csv", c);
    put(base + "_test_y.csv", d);
    const bool no = mc::rejects([&] {
        XCSF *s = open_env("csv", base);
        gone(s);
    });
    if (!no) mc::fail("csv-accepted", "%s: accepted", what);
    for (const char *x : { "_train_x.csv", "_train_y.csv", "_test_x.csv", "_test_y.csv" }) unlink((base + x).c_str());
    mc::step();
}

void mc::scenarios()
{
    Opt o;
    o.leak = true;
    for (int b : { 1, 3, 4, 6, 8, 11, 12 }) {
        int addr;
        const int n = mux_bits(b, addr);
        mc::add("mux-" + std::to_string(b), o, [=] { mux(b, 0.2, 0.8, n); });
        mc::add("mux-edge-" + std::to_string(b), o, [=] { mux(b, 0.4999999, 0.5000001, n); });
        mc::add("mux-far-" + std::to_string(b), o, [=] { mux(b, 1e-9, 1 - 1e-9, n); });
    }
    for (int b : { 20, 37, 70, 135 }) {
        for (int f : { 7, 11, 13 }) mc::add("mux-" + std::to_string(b) + "-period" + std::to_string(f), o, [=] { mux(b, 0.2, 0.8, f); });
        for (int k = 0; b == 20 && k < 32; ++k) mc::add("mux-20-full-" + std::to_string(k), o, [=] { mux(20, 0.2, 0.8, 20, k, 32); });
    }
    for (int b : { 3, 6, 11, 20, 37, 70, 135, 264 }) mc::add("mux-single-" + std::to_string(b), o, [=] { mux_single(b, 0.2, 0.8); });
    const string all = "*OQFG";
    for (auto wh : { std::pair<int, int>{ 1, 1 }, { 2, 1 }, { 1, 2 }, { 3, 1 }, { 1, 3 }, { 2, 2 }, { 4, 1 }, { 1, 4 } })
        mc::add("maze-" + std::to_string(wh.first) + "x" + std::to_string(wh.second), o, [=] { small(wh.first, wh.second, all, ""); });
    for (char c : all)
        for (auto wh : { std::pair<int, int>{ 3, 2 }, { 2, 3 } })
            mc::add("maze-" + std::to_string(wh.first) + "x" + std::to_string(wh.second) + "-" + string(1, c), o, [=] { small(wh.first, wh.second, mc::thorough() ? all : string("*OF"), string(1, c)); });
    for (const string &p : { "***", "**O", "**F", "*O*", "*OO", "*OF", "*F*", "*FO", "*FF", "O**", "O*O", "O*F", "OO*", "OOO", "OOF", "OF*", "OFO", "OFF", "F**", "F*O", "F*F", "FO*", "FOO", "FOF", "FF*", "FFO", "FFF" })
        mc::add("maze-3x3-" + p, o, [=] { small(3, 3, mc::thorough() ? "*OF" : "*F", p); });
    const string repo = getenv("MC_REPO") ? getenv("MC_REPO") : "/repo";
    const string dir = repo + "/env/maze";
    if (DIR *d = opendir(dir.c_str())) {
        vector<string> names;
        while (dirent *e = readdir(d))
            if (e->d_name[0] != '.') names.push_back(e->d_name);
        closedir(d);
        std::sort(names.begin(), names.end());
        for (auto &n : names) mc::add("shipped-" + n, o, [=] { shipped(dir + "/" + n); });
    }
    Opt q;
    auto grid = [](int w, int h, char fill) {
        string t;
        for (int y = 0; y < h; ++y) {
            string r((size_t) w, fill);
            if (y == h / 2) r[(size_t) w / 2] = 'F';
            if (y == h - 1) r[(size_t) w - 1] = '*';
            t += r + "\n";
        }
        return t;
    };
    mc::add("maze-text", q, [=] {
        switch (mc::choose(16)) {
            case 0: odd(grid(50, 50, '*'), 1); break;
            case 1: odd(grid(50, 50, 'O'), 1); break;
            case 2: odd(grid(51, 3, '*'), 0); break;
            case 3: odd(grid(3, 51, '*'), 0); break;
            case 4: odd(grid(51, 50, '*'), 0); break;
            case 5: odd(grid(50, 51, '*'), 0); break;
            case 6: odd(grid(50, 52, '*'), 0); break;
            case 7: odd("*F\nO*\n\n", -1); break;
            case 8: odd("*F\nO*", -1); break;
            case 9: odd("*F*\nO*\n", -1); break;
            case 10: odd("*F\nO**\n", -1); break;
            case 11: odd("", 0); break;
            case 12: odd("\n\n", 0); break;
            case 13: odd("OF\nFO\n", 0); break;
            case 14: odd(grid(70, 1, '*'), 0); break;
            case 15: odd(grid(49, 50, '*'), 1); break;
        }
    });
    mc::add("maze-illegal-action", q, [=] {
        const int a = mc::picki({ -1, 8, 100, -100 });
        const string f = tmp(".txt");
        put(f, "*F\nO*\n");
        XCSF *s = open_env("maze", f);
        unlink(f.c_str());
        env_reset(s);
        if (!mc::rejects([&] { env_execute(s, a); })) mc::fail("maze-action", "action %d was executed", a);
        gone(s);
    });
    mc::add("unknown", q, [=] {
        const int k = mc::choose(3);
        if (!mc::rejects([&] {
                if (k == 0) open_env("nothing", "1");
                if (k == 1) open_env("maze", "no-such-file.txt");
                if (k == 2) open_env("csv", "no-such-file");
            }))
            mc::fail("env-accepted", "an unknown environment or missing file was accepted");
    });
    for (int rows = 1; rows <= 3; ++rows)
        for (int xc = 1; xc <= 3; ++xc)
            mc::add("csv-" + std::to_string(rows) + "x" + std::to_string(xc), o, [=] {
                const int yc = 1 + mc::choose(2), rows2 = 1 + mc::choose(3), start = mc::choose((int) FORMS.size());
                csv_ok(rows, rows2, xc, yc, start, "\n", mc::flip(), "", 1);
            });
    mc::add("csv-crlf", o, [=] { csv_ok(2, 3, 1 + mc::choose(3), 1, mc::choose(10), "\r\n", mc::flip(), "", 1); });
    mc::add("csv-blank", q, [=] { csv_ok(2, 2, 1 + mc::choose(2), 1, 0, "\n", true, mc::flip() ? "\n" : "\r\n", -1); });
    // long lines: 199..., well over any fixed line buffer
    for (int xc : { 20, 28, 29, 30, 31, 32, 33, 40, 60, 100, 300 }) mc::add("csv-wide-" + std::to_string(xc), q, [=] { csv_ok(3, 2, xc, 1 + mc::choose(2), mc::choose(10), "\n", mc::flip(), "", -1); });
    mc::add("csv-tall", q, [=] { csv_ok(5000, 3000, 2, 1, mc::choose(3), "\n", mc::flip(), "", 1); });
    mc::add("csv-mismatch", q, [=] {
        switch (mc::choose(9)) {
            case 0: csv_bad("fewer targets than inputs", "1\n2\n3\n", "1\n2\n", "1\n", "1\n"); break;
            case 1: csv_bad("more targets than inputs", "1\n2\n", "1\n2\n3\n", "1\n", "1\n"); break;
            case 2: csv_bad("fewer test targets", "1\n2\n", "1\n2\n", "1\n2\n", "1\n"); break;
            case 3: csv_bad("short row", "1,2\n3\n", "1\n2\n", "1,2\n", "1\n"); break;
            case 4: csv_bad("long row", "1,2\n3,4,5\n", "1\n2\n", "1,2\n", "1\n"); break;
            case 5: csv_bad("empty file", "", "1\n", "1\n", "1\n"); break;
            case 6: csv_bad("test inputs narrower", "1,2\n", "1\n", "1\n", "1\n"); break;
            case 7: csv_bad("test inputs wider", "1\n", "1\n", "1,2\n", "1\n"); break;
            case 8: csv_bad("test targets wider", "1\n", "1\n", "1\n", "1,2\n"); break;
        }
    });
}
