// Decoder of logs: a log is a sequence of Octave assignments to distinct elements of structures and cell arrays.
#pragma once
#include "mc.h"
#include "humoto/humoto.h"
#include <map>
namespace logs
{
    struct Value
    {
        bool text;
        std::string s;
        Eigen::MatrixXd m;
        Value() : text(false) {}
        Value(const std::string &t) : text(true), s(t) {}
        Value(const char *t) : text(true), s(t) {}
        Value(double d) : text(false), m(Eigen::MatrixXd::Constant(1, 1, d)) {}
        template<class D> Value(const Eigen::DenseBase<D> &x) : text(false), m(x.template cast<double>()) {}
        std::string str() const
        {
            if (text) return "'" + s + "'";
            std::stringstream o;
            o << std::setprecision(17) << m.rows() << "x" << m.cols() << "(" << m.format(Eigen::IOFormat(Eigen::FullPrecision, Eigen::DontAlignCols, ",", ";")) << ")";
            return o.str();
        }
    };
    inline bool same(double a, double b, double tol) { return (std::isnan(a) && std::isnan(b)) || a == b || std::abs(a - b) <= tol * std::abs(b); }
    inline bool same(const Value &a, const Value &b, double tol)
    {
        if (a.text != b.text) return false;
        if (a.text) return a.s == b.s;
        if (a.m.size() == 0 && b.m.size() == 0) return true;
        if (a.m.rows() != b.m.rows() || a.m.cols() != b.m.cols()) return false;
        for (long i = 0; i < a.m.rows(); ++i) for (long j = 0; j < a.m.cols(); ++j) if (!same(a.m(i, j), b.m(i, j), tol)) return false;
        return true;
    }
    typedef std::map<std::string, Value> Map;

    struct Parser
    {
        const std::string &t;
        size_t at;
        std::string error;
        explicit Parser(const std::string &text) : t(text), at(0) {}
        bool fail(const std::string &e) { if (error.empty()) error = e + " at '" + t.substr(at, 60) + "'"; return false; }
        char peek() const { return at < t.size() ? t[at] : '\0'; }
        bool eat(const char *s) { size_t n = strlen(s); if (t.compare(at, n, s) == 0) { at += n; return true; } return false; }
        void blanks(bool lines)
        {
            for (;;)
            {
                if (peek() == ' ' || peek() == '\t' || (lines && peek() == '\n')) { ++at; continue; }
                if (t.compare(at, 3, "...") == 0) { size_t e = t.find('\n', at); if (e != std::string::npos && t.find_first_not_of(" ", at + 3) == e) { at = e + 1; continue; } }
                return;
            }
        }
        bool identifier(std::string &n)
        {
            if (!isalpha(peek()) && peek() != '_') return fail("an identifier is expected");
            while (isalnum(peek()) || peek() == '_') n += t[at++];
            return true;
        }
        bool name(std::string &n)
        {
            if (!identifier(n)) return false;
            for (;;)
            {
                if (peek() == '.') { n += t[at++]; if (!identifier(n)) return false; }
                else if (peek() == '{' )
                {
                    n += t[at++];
                    std::string d;
                    while (isdigit(peek())) d += t[at++];
                    if (d.empty() || d[0] == '0' || peek() != '}') return fail("a positive index is expected");
                    n += d; n += t[at++];
                }
                else return true;
            }
        }
        bool number(double &d)
        {
            if (peek() == '\0' || !strchr("+-.0123456789inIN", peek())) return fail("a number is expected");
            if (t[at] == '0' && (t[at + 1] == 'x' || t[at + 1] == 'X')) return fail("a decimal number is expected");
            char *e;
            d = strtod(t.c_str() + at, &e);
            if (e == t.c_str() + at) return fail("a number is expected");
            at = e - t.c_str();
            if (isalnum(peek()) || peek() == '_') return fail("garbage after a number");
            return true;
        }
        bool value(Value &v)
        {
            if (peek() == '\'')
            {
                ++at;
                v.text = true;
                for (;;)
                {
                    if (at >= t.size() || peek() == '\n') return fail("unterminated string");
                    if (peek() == '\'') { ++at; if (peek() != '\'') return true; }
                    v.s += t[at++];
                }
            }
            if (peek() != '[')
            {
                double d;
                if (!number(d)) return false;
                v.m = Eigen::MatrixXd::Constant(1, 1, d);
                return true;
            }
            ++at;
            std::vector<std::vector<double> > rows(1);
            for (;;)
            {
                blanks(false);
                if (peek() == ']') { ++at; break; }
                if (peek() == ';' || peek() == '\n')
                {
                    while (peek() == ';' || peek() == '\n' || peek() == ' ') ++at;
                    if (peek() != ']') rows.push_back(std::vector<double>());
                    continue;
                }
                if (!rows.back().empty())
                {
                    if (!eat(",")) return fail("a comma is expected");
                    blanks(false);
                }
                double d;
                if (!number(d)) return false;
                rows.back().push_back(d);
            }
            if (rows.size() == 1 && rows[0].empty()) { v.m.resize(0, 0); return true; }
            v.m.resize(rows.size(), rows[0].size());
            for (size_t i = 0; i < rows.size(); ++i)
            {
                if (rows[i].size() != rows[0].size()) return fail("rows of different sizes");
                for (size_t j = 0; j < rows[i].size(); ++j) v.m(i, j) = rows[i][j];
            }
            return true;
        }
        bool run(Map &m)
        {
            std::map<std::string, char> kinds;
            for (;;)
            {
                while (peek() == '\n' || peek() == ' ') ++at;
                if (at >= t.size()) return true;
                std::string n;
                if (!name(n)) return false;
                blanks(false);
                if (!eat("=")) return fail("an assignment to " + n + " is expected");
                blanks(true);
                Value v;
                if (!value(v)) return fail("value of " + n);
                blanks(false);
                if (!eat(";")) return fail("';' is expected after " + n);
                if (peek() != '\n' && at < t.size()) return fail("a new line is expected after " + n);
                if (!m.insert(std::make_pair(n, v)).second) return fail(n + " is assigned twice");
                // a name is a value, a structure, or a cell array
                for (size_t i = 1; i <= n.size(); ++i) if (i == n.size() || n[i] == '.' || n[i] == '{')
                {
                    char k = i == n.size() ? 'v' : n[i];
                    char &have = kinds[n.substr(0, i)];
                    if (have != '\0' && have != k) return fail(n.substr(0, i) + " has different types");
                    have = k;
                }
            }
        }
    };

    // what has to be in a log
    struct Expect
    {
        Map m;
        std::set<std::string> any;      // present, value is not known
        std::string base;
        static std::string join(const std::string &a, const std::string &b) { return a.empty() ? b : (b.empty() ? a : a + "." + b); }
        static std::string index(const std::string &a, size_t i) { return a + "{" + std::to_string(i + 1) + "}"; }
        Expect &in(const std::string &prefix) { base = prefix; return *this; }
        Expect &add(const std::string &n, const Value &v) { m[join(base, n)] = v; return *this; }
        Expect &unknown(const std::string &n) { any.insert(join(base, n)); return *this; }
    };
    inline void compare(mc::Ctx &c, const std::string &text, const Expect &e, const char *what)
    {
        Map got;
        Parser p(text);
        c.state(text);
        if (!p.run(got)) { c.fail(std::string(what) + "-syntax", "the log is not a sequence of assignments: " + p.error); return; }
        for (auto &x : e.m)
        {
            auto f = got.find(x.first);
            if (f == got.end()) { c.fail(std::string(what) + "-missing", x.first + " is not in the log"); return; }
            if (!same(f->second, x.second, 1e-14)) { c.fail(std::string(what) + "-value", x.first + " is " + f->second.str() + " instead of " + x.second.str()); return; }
        }
        for (auto &x : e.any) if (!got.count(x)) { c.fail(std::string(what) + "-missing", x + " is not in the log"); return; }
        for (auto &x : got) if (!e.m.count(x.first) && !e.any.count(x.first)) { c.fail(std::string(what) + "-extra", x.first + " should not be in the log"); return; }
    }
    // the text which 'f' logs
    template<class F> std::string written(F f)
    {
        std::stringstream s;
        {
#ifdef HUMOTO_USE_THREADS_FOR_LOGGING
            humoto::Logger l(s, 0);
#else
            humoto::Logger l(s);
#endif
            f(l);
        }
        return s.str();
    }
}
