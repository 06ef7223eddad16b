// C10: text input and output; C11: archives and descriptions of fields.
#include "ops.hpp"
#include <algorithm>
#include <cmath>
#include <sys/mman.h>
#include <unistd.h>
// rapidjson computes null + 0 style offsets
#pragma clang attribute push(__attribute__((no_sanitize("pointer-overflow"))), apply_to = function)
#include <cereal/archives/json.hpp>
#pragma clang attribute pop
#include <e-antic/cereal.hpp>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/archives/xml.hpp>
#include <cereal/types/vector.hpp>
#include <cereal/types/tuple.hpp>
using namespace ops; using namespace pbt;
using eantic::renf_class;

// ------------------------------------------------------------------ reading decimals
// value of a decimal literal [-]ddd[.ddd][e[+-]dd] and the weight of its last digit; false if it is not one
static bool decimal_value(const std::string& t, mpq_class& v, mpq_class& ulp) {
    size_t i = 0; bool neg = false; std::string digits; long shift = 0; bool dot = false, any = false;
    if (i < t.size() && (t[i] == '-' || t[i] == '+')) neg = t[i++] == '-';
    for (; i < t.size() && (isdigit((unsigned char)t[i]) || (t[i] == '.' && !dot)); i++) { if (t[i] == '.') { dot = true; continue; } digits += t[i]; any = true; if (dot) shift--; }
    if (!any) return false;
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { char* e; long x = strtol(t.c_str() + i + 1, &e, 10); if (*e || e == t.c_str() + i + 1) return false; shift += x; i = t.size(); }
    if (i != t.size() || labs(shift) > 100000) return false;
    mpz_class ten; mpz_ui_pow_ui(ten.get_mpz_t(), 10, (unsigned long)labs(shift));
    ulp = shift >= 0 ? mpq_class(ten) : mpq_class(mpz_class(1), ten);
    v = mpq_class(mpz_class(digits, 10)) * ulp; if (neg) v = -v;
    return true;
}
// the ball "[c +/- r]", "[+/- r]" or "c"; false if it is none of these
static bool ball_value(const std::string& t, mpq_class& c, mpq_class& r) {
    mpq_class u;
    if (t.size() > 2 && t[0] == '[' && t.back() == ']') {
        std::string b = t.substr(1, t.size() - 2); size_t p = b.find("+/-"); if (p == std::string::npos) return false;
        std::string cs = b.substr(0, p), rs = b.substr(p + 3);
        while (!cs.empty() && cs.back() == ' ') cs.pop_back();
        while (!rs.empty() && rs.front() == ' ') rs.erase(0, 1);
        c = 0; if (!cs.empty() && !decimal_value(cs, c, u)) return false;
        return decimal_value(rs, r, u);
    }
    r = 0; return decimal_value(t, c, u);
}
static void check_approx(const std::string& t, const Elem& e, const std::string& what) {
    mpq_class v, u;
    if (t == "inf" || t == "-inf") {
        mpq_class top = (mpq_class(orc::pow2(1024)) - orc::pow2(970));
        CHECK(t == "inf" ? e.cmp(top) >= 0 : e.cmp(mpq_class(-top)) <= 0, "approx", what << " prints as " << t); return;
    }
    CHECK(decimal_value(t, v, u), "approx", what << ": approximate part is not a number: " << t);
    // within one unit of the last digit (or of the smallest double)
    mpq_class tol = u + orc::pow2(-1074), a = abs(v); tol += a * orc::pow2(-52);
    if (e.is_zero()) { CHECK(v == 0, "approx", what << ": zero prints as " << t); return; }
    CHECK(e.cmp(mpq_class(v - tol)) >= 0 && e.cmp(mpq_class(v + tol)) <= 0, "approx", what << " prints as " << t);
    // eight significant digits unless exact
    if (a > 0 && a >= orc::pow2(-1000) && e.cmp(v) != 0) CHECK(u * 9999999 <= a * 2, "approx-digits", what << " prints with too few digits: " << t);
}
static void check_ball_text(const std::string& t, const Elem& e, const std::string& what) {
    if (t.find("nan") != std::string::npos || t.find("inf") != std::string::npos) return;        // says nothing, which is correct
    mpq_class c, r; CHECK(ball_value(t, c, r), "ball", what << ": not a ball: " << t);
    CHECK(e.cmp(mpq_class(c - r)) >= 0 && e.cmp(mpq_class(c + r)) <= 0, "ball", what << " prints as " << t);
}
static std::string own(char* p) { std::string r(p); flint_free(p); return r; }

// what f writes to standard output
template <class F> static std::string printed(F f) {
    fflush(stdout); int keep = dup(1), fd = memfd_create("out", 0); if (keep < 0 || fd < 0) throw Discard{};
    dup2(fd, 1); f(); fflush(stdout); dup2(keep, 1); close(keep);
    std::string r; char b[4096]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, b, sizeof b)) > 0) r.append(b, (size_t)n); close(fd);
    return r;
}
static void c10_roundtrip(Src& s) {
    CppField C = cpp_field(s); label(C.F.family);
    size_t n = (size_t)s.range(1, 4); std::vector<Elem> v; std::vector<X> x;
    for (size_t i = 0; i < n; i++) { Elem e = elem(s, C.F.K, 90); if (s.chance(1, 6)) e = Elem(C.F.K, mpq_class(integer(s, 2200))); if (s.chance(1, 8)) e = e * orc::pow2(-s.range(0, 1100)); v.push_back(e); NOTE("x" << i << " = " << e.str()); x.push_back(make_x(s, C, e)); }
    for (size_t i = 0; i < n; i++) {
        std::string alg = x[i].to_string(EANTIC_STR_ALG); NOTE("text " << alg);
        X y(*C.K, alg); CHECK(read_x(y, C.F.K) == v[i] && &y.parent() == &*C.K && y == x[i], "reparse", "the text " << alg << " of " << v[i].str() << " reads back as " << y.to_string(EANTIC_STR_ALG));
        check_elem("reparse", y.renf_elem_t(), C.K->renf_t(), v[i], "reading " + alg, true);
        std::string d = x[i].to_string(EANTIC_STR_D), both = x[i].to_string(EANTIC_STR_ALG | EANTIC_STR_D), ab = x[i].to_string(EANTIC_STR_ALG | EANTIC_STR_ARB), arb = x[i].to_string(EANTIC_STR_ARB);
        check_approx(d, v[i], v[i].str()); check_ball_text(arb, v[i], v[i].str());
        CHECK(both == "(" + alg + " ~ " + d + ")", "format", both);
        CHECK(ab.compare(0, alg.size() + 4, "(" + alg + " ~ ") == 0 && ab.back() == ')', "format", ab);
        check_ball_text(ab.substr(alg.size() + 4, ab.size() - alg.size() - 5), v[i], v[i].str());
        CHECK(static_cast<std::string>(x[i]) == x[i].to_string(), "format", "conversion to string differs from to_string()");
        X z(*C.K, alg + " ~ " + d); CHECK(read_x(z, C.F.K) == v[i], "reparse", "the text " << alg << " ~ " << d << " reads back as " << z.to_string(EANTIC_STR_ALG));
        // the C interface, with another name for the generator
        std::string var = gen_name(s); slong digits = (slong)s.range(1, 60);
        std::string c = own(renf_elem_get_str_pretty(x[i].renf_elem_t(), var.c_str(), C.K->renf_t(), digits, EANTIC_STR_ALG));
        QP p; CHECK(fmpq_poly_set_str_pretty(p.v, c.c_str(), var.c_str()) == 0, "c-reparse", "the text " << c << " is refused");
        CHECK(Elem::from(C.F.K, p.get()) == v[i] && (int)p.get().size() <= C.F.d, "c-reparse", "the text " << c << " of " << v[i].str() << " reads back as " << orc::str(p.get()));
        check_approx(own(renf_elem_get_str_pretty(x[i].renf_elem_t(), var.c_str(), C.K->renf_t(), digits, EANTIC_STR_D)), v[i], v[i].str());
        check_ball_text(own(renf_elem_get_str_pretty(x[i].renf_elem_t(), var.c_str(), C.K->renf_t(), digits, EANTIC_STR_ARB)), v[i], v[i].str());
        CHECK(own(renf_elem_get_str_pretty(x[i].renf_elem_t(), var.c_str(), C.K->renf_t(), digits, EANTIC_STR_ALG | EANTIC_STR_D)) == c + " ~ " + d, "format", "C text with approximation");
        if (s.chance(1, 8)) {
            int fl = s.one(std::vector<int>{EANTIC_STR_ALG, EANTIC_STR_D, EANTIC_STR_ALG | EANTIC_STR_D});
            std::string w = own(renf_elem_get_str_pretty(x[i].renf_elem_t(), var.c_str(), C.K->renf_t(), digits, fl));
            std::string o = printed([&] { renf_elem_print_pretty(x[i].renf_elem_t(), var.c_str(), C.K->renf_t(), digits, fl); });
            CHECK(o == w, "print", "printed " << o << " instead of " << w);
            o = printed([&] { renf_print(C.K->renf_t()); }); QP p2; size_t at = o.find(", ");
            CHECK(o.compare(0, 12, "NumberField(") == 0 && o.back() == ')' && at != std::string::npos && fmpq_poly_set_str_pretty(p2.v, o.substr(12, at - 12).c_str(), "x") == 0 && p2.get() == C.F.pol, "print", "field printed as " << o);
        }
        CHECK(read_x(x[i], C.F.K) == v[i], "unchanged", "printing changed an element");
    }
    // streams: several elements in a row, arbitrary white space between them, something after them
    std::ostringstream o; std::vector<std::string> ws = {" ", "\n", "\t", "  ", " \n ", "\r\n"};
    if (s.chance(1, 3)) o << s.one(ws);
    for (size_t i = 0; i < n; i++) { if (i) o << s.one(ws); std::ostringstream one; one << x[i]; o << one.str(); if (v[i].is_integer()) CHECK(one.str() == v[i].c[0].get_str(), "format", "integer printed as " << one.str()); else { CHECK(one.str() == x[i].to_string(EANTIC_STR_ALG | EANTIC_STR_D), "format", "printed " << one.str()); } }
    bool tail = s.chance(1, 2); if (tail) o << " 17 tail"; else if (s.chance(1, 2)) o << s.one(ws);
    std::istringstream in(o.str()); if (s.chance(1, 4)) C.K->set_istream(in); else C.K->set_pword(in); NOTE("stream " << o.str());
    CHECK(&*renf_class::get_pword(in) == &*C.K, "pword", "field attached to the stream");
    X y = s.chance(1, 2) ? X(7) : C.K->gen();
    for (size_t i = 0; i < n; i++) { in >> y; CHECK(!in.fail(), "stream", "reading element " << i << " fails"); CHECK(read_x(y, C.F.K) == v[i] && &y.parent() == &*C.K, "stream", "element " << i << " of the stream " << o.str() << " reads as " << y.to_string(EANTIC_STR_ALG)); }
    if (tail) { CHECK(in.peek() == ' ', "stream-rest", "white space after the last element was consumed"); int k = 0; std::string w; in >> k >> w; CHECK(k == 17 && w == "tail", "stream-rest", "the text after the last element was consumed"); }
    else {   // nothing is left: this is an error, and reads nothing
        bool got = false; try { if (in >> y) got = true; } catch (const std::invalid_argument&) {}
        CHECK(!got, "stream-end", "an element was read from the end of the stream " << o.str()); CHECK(read_x(y, C.F.K) == v[n - 1] && &y.parent() == &*C.K, "stream-end", "reading from the end of a stream changed the element");
    }
    if (s.chance(1, 3)) {   // two streams, each with a field of its own
        CppField D = cpp_field(s, NO_EXTREME, 4); Elem u = elem(s, D.F.K, 60); X xu = make_x(s, D, u);
        std::string sep = s.chance(1, 2) ? "," : ";";
        std::istringstream i1("(" + x[0].to_string(EANTIC_STR_ALG) + ")" + sep + "(" + x[n - 1].to_string(EANTIC_STR_ALG) + ")"), i2("(" + xu.to_string(EANTIC_STR_ALG) + ")" + sep + D.name);
        C.K->set_pword(i1); D.K->set_pword(i2); NOTE("streams " << i1.str() << " and " << i2.str());
        X y1, y2; i1 >> y1; i2 >> y2;
        CHECK(read_x(y1, C.F.K) == v[0] && &y1.parent() == &*C.K && read_x(y2, D.F.K) == u && &y2.parent() == &*D.K, "two-streams", "read " << y1.to_string(EANTIC_STR_ALG) << " and " << y2.to_string(EANTIC_STR_ALG));
        CHECK(i1.get() == sep[0] && i2.get() == sep[0], "stream-rest", "the character after the closing parenthesis was consumed");
        i2 >> y2; i1 >> y1;
        CHECK(read_x(y1, C.F.K) == v[n - 1] && &y1.parent() == &*C.K && read_x(y2, D.F.K) == Elem::gen(D.F.K) && &y2.parent() == &*D.K, "two-streams", "then read " << y1.to_string(EANTIC_STR_ALG) << " and " << y2.to_string(EANTIC_STR_ALG));
        // the same stream may be given another field
        std::istringstream i3(C.name + " " + D.name); C.K->set_pword(i3); i3 >> y1; D.K->set_pword(i3); i3 >> y2;
        CHECK(read_x(y1, C.F.K) == Elem::gen(C.F.K) && &y1.parent() == &*C.K && read_x(y2, D.F.K) == Elem::gen(D.F.K) && &y2.parent() == &*D.K, "two-streams", "a stream that is given another field");
    }
    // the field itself
    std::ostringstream os; os << *C.K;
    std::string t = s.chance(1, 3) ? os.str() : s.chance(1, 2) ? C.K->to_string() : own(renf_get_str(C.K->renf_t(), C.name.c_str(), (slong)s.range(1, 80)));
    size_t comma = t.rfind(", "); CHECK(t.compare(0, 12, "NumberField(") == 0 && t.back() == ')' && comma != std::string::npos, "field-text", t);
    QP p; std::string pol = t.substr(12, comma - 12); CHECK(fmpq_poly_set_str_pretty(p.v, pol.c_str(), C.name.c_str()) == 0 && p.get() == C.F.pol, "field-text", "polynomial in " << t << " is not " << orc::str(C.F.pol));
    check_ball_text(t.substr(comma + 2, t.size() - comma - 3), Elem::gen(C.F.K), "the generator");
    // polynomials
    QPoly q; { int len = rare(s, 30) ? (int)s.range(10, 120) : (int)s.range(0, 9); for (int i = 0; i < len; i++) q.push_back(s.chance(1, 3) ? mpq_class(0) : rational(s, 100)); orc::trim(q); }
    { QP a(q), b; std::string w = own(fmpq_poly_get_str_pretty(a.v, C.name.c_str())); CHECK(fmpq_poly_set_str_pretty(b.v, w.c_str(), C.name.c_str()) == 0 && b.get() == q, "poly", "the polynomial " << w << " reads back as " << orc::str(b.get())); }
    { ZPoly z; for (auto& c : q) z.push_back(c.get_num()); orc::trim(z); ZP a(z), b; std::string w = own(fmpz_poly_get_str_pretty(a.v, C.name.c_str())); CHECK(fmpz_poly_set_str_pretty(b.v, w.c_str(), C.name.c_str()) == 0 && b.get() == z, "poly", "the polynomial " << w << " reads back as " << orc::str(b.get())); }
    if (C.F.d > 1) nontrivial();
}
PROPERTY("C10.roundtrip", c10_roundtrip, 40000, 400000, 20, "texts of random elements, fields and polynomials are read back, through strings and streams of several elements, and their approximate parts compared with the true value; non-trivial: degree > 1");

// ------------------------------------------------------------------ well formed expressions in all notations
struct Expr { std::string text; QPoly value; bool spaces; };
static std::string sp(Src& s) { return std::string(s.pick({6, 3, 1, 1}), ' '); }
static Expr expression(Src& s, const std::string& var, bool integral, int maxpow, bool nospace) {
    Expr E; int terms = rare(s, 40) ? (int)s.range(7, 60) : (int)s.range(1, 6);
    auto S = [&] { return nospace ? std::string() : sp(s); };
    for (int i = 0; i < terms; i++) {
        int sign = 1; std::string t;
        if (i == 0) { t += S(); if (s.chance(1, 3)) { bool m = s.chance(1, 2); if (m) sign = -sign; t += m ? "-" : "+"; t += S(); } }
        else t += s.chance(1, 2) ? "+" : (sign = -sign, "-");
        t += S();
        while (s.chance(1, 6)) { bool m = s.chance(1, 2); if (m) sign = -sign; t += m ? "-" : "+"; t += S(); }
        bool withvar = s.chance(2, 3), withcoeff = !withvar || s.chance(2, 3);
        mpq_class c = 1;
        if (withcoeff) {
            mpz_class a = abs(integer(s, 150)), b = 1;
            if (!integral && s.chance(1, 2)) { b = abs(nonzero(s, s.chance(1, 2) ? 4 : 100)); if (s.chance(1, 3)) { mpz_class k = (long)s.range(2, 12); a *= k; b *= k; } }
            c = mpq_class(a, b); c.canonicalize();
            if (s.chance(1, 10)) t += std::string(rare(s, 8) ? (size_t)s.range(2, 40) : 1, '0');
            t += a.get_str(); if (b != 1 || (!integral && s.chance(1, 8))) t += "/" + std::string(s.chance(1, 10) ? "0" : "") + b.get_str();
        }
        int pow = 0;
        if (withvar) {
            if (withcoeff) { t += S(); if (s.chance(1, 2)) t += "*" + S(); }
            t += var;
            switch (s.below(4)) {
            case 0: pow = 1; break;
            case 1: pow = (int)s.range(0, maxpow); t += std::to_string(pow); break;
            default: pow = (int)s.range(0, maxpow); t += S() + "^" + S() + (s.chance(1, 12) ? std::string((size_t)s.range(1, 3), '0') : "") + std::to_string(pow); break;
            }
        }
        t += S();
        if ((int)E.value.size() <= pow) E.value.resize((size_t)pow + 1);
        E.value[(size_t)pow] += sign * c; E.text += t;
    }
    orc::trim(E.value); E.spaces = E.text.find(' ') != std::string::npos;
    return E;
}
static void c10_expr(Src& s) {
    CppField C = cpp_field(s, NO_EXTREME, 6); label(C.F.family);
    Expr E = expression(s, C.name, false, rare(s, 40) ? 300 : s.chance(1, 4) ? 30 : 8, s.chance(1, 3));
    NOTE("expression '" << E.text << "'"); std::string want = orc::str(E.value);
    QP p; if (s.chance(1, 2)) { QPoly junk = {mpq_class(3), mpq_class(1, 7), mpq_class(0), mpq_class(5)}; QP j(junk); fmpq_poly_set(p.v, j.v); }
    CHECK(fmpq_poly_set_str_pretty(p.v, E.text.c_str(), C.name.c_str()) == 0, "refused", "the expression '" << E.text << "' is refused");
    CHECK(p.get() == E.value, "value", "the expression '" << E.text << "' reads as " << orc::str(p.get()) << " instead of " << want);
    bool integral = true; for (auto& c : E.value) integral &= c.get_den() == 1;
    { ZPoly junk = {mpz_class(1), mpz_class(2), mpz_class(3)}; ZP z(s.chance(1, 2) ? junk : ZPoly()); int err = fmpz_poly_set_str_pretty(z.v, E.text.c_str(), C.name.c_str());
      CHECK(!err == integral, "fmpz", "reading '" << E.text << "' as an integer polynomial: error " << err);
      if (integral) { ZPoly w; for (auto& c : E.value) w.push_back(c.get_num()); CHECK(z.get() == w, "fmpz", "the expression '" << E.text << "' reads as " << orc::str(z.get()) << " instead of " << want); } }
    Elem e = Elem::from(C.F.K, E.value);
    X x(*C.K, E.text); check_elem("element", x.renf_elem_t(), C.K->renf_t(), e, "'" + E.text + "'", true);
    { X direct(*C.K); set_direct(direct.renf_elem_t(), e, C.K->renf_t()); CHECK(x == direct && direct == x && !(x < direct) && x.den() == e.den() && x.is_integer() == e.is_integer() && std::hash<X>()(x) == std::hash<X>()(direct), "element", "the element read from '" << E.text << "' differs from " << e.str()); }
    { X y(*C.K, E.text + "~ garbage 1.2.3 ("); CHECK(read_x(y, C.F.K) == e, "approx-ignored", "the text after ~ is not ignored"); }
    // streams: in parentheses, or bare when there is no space
    std::string rest = s.chance(1, 2) ? "" : s.chance(1, 2) ? " (1)" : "\n2"; bool paren = E.spaces || s.chance(1, 2);
    std::string approx = paren && s.chance(1, 3) ? "~ 12.5" : "";
    std::istringstream in((paren ? "(" + E.text + approx + ")" : E.text) + rest); C.K->set_pword(in);
    X y; in >> y; CHECK(!in.fail() && read_x(y, C.F.K) == e && &y.parent() == &*C.K, "stream", "the stream '" << in.str() << "' reads as " << y.to_string(EANTIC_STR_ALG) << " instead of " << e.str());
    if (!rest.empty()) { CHECK(in.peek() == rest[0], "stream-rest", "white space after '" << E.text << "' was consumed"); in >> y; CHECK(read_x(y, C.F.K) == Elem(C.F.K, rest == "\n2" ? 2 : 1), "stream-rest", "the element after '" << E.text << "' reads as " << y.to_string(EANTIC_STR_ALG)); }
    if (E.value.size() > 1) nontrivial();
}
PROPERTY("C10.expr", c10_expr, 50000, 500000, 20, "well formed expressions in random notation (order, spacing, signs, implicit products and powers, unreduced fractions) through all parsers against a model; non-trivial: the expression involves the generator");

// ------------------------------------------------------------------ malformed text
static void c10_malformed(Src& s) {
    CppField C = cpp_field(s, NO_EXTREME, 5); const std::string& g = C.name;
    Expr E = expression(s, g, false, 6, s.chance(1, 2)); std::string t = E.text, bad; bool strm = true;
    switch (s.below(8)) {
    case 0: { static const std::string odd = "#$%@!{}[]\"',;:?<>|\\`=.&()"; char c = odd[s.below(odd.size())]; size_t at = s.below(t.size() + 1); bad = t; bad.insert(at, 1, c); if (c == '(' || c == ')') strm = false; break; }
    case 1: { static const std::vector<std::string> tails = {"+", "-", " + ", " - ", "*", "/", "^", " + -", "+ 2*", "+ 3/", "+ /3", "+ ^2", "+ 2^3", "+ 1/2/3", "+ 1//2", "+ 2 3", "+ 1.5", "+ 1e3"}; std::string u = s.one(tails); if (u == "+ 1e3" && g[0] == 'e') u = "+"; bad = t + u; break; }
    case 2: { std::vector<std::string> m = {g + "^", g + "^^2", g + "*" + g, "2**" + g, g + "^-1", g + "^1/2", g + "^(2)", "3" + g + "^2*2", g + " " + g, "(" + g + ")", g + "^+2", g + "/2", g + "^2^2", g + "*2", "2*3*" + g, "2*3", g + "^" + std::string((size_t)s.range(20, 40), '9'), "1/0", "0/0", "5/00*" + g, "1/0" + g}; bad = s.one(m); if (s.chance(1, 2)) bad = t + " + " + bad; if (bad.find('(') != std::string::npos) strm = false; break; }
    case 3: { std::string other = gen_name(s); if (other.compare(0, g.size(), g) == 0) other = (g[0] == 'q' ? "w" : "q") + g; bad = t + "+" + other; break; }
    case 4: bad = t + "+" + g + "_"; break;
    case 5: bad = t + "+" + g + "Z^2"; break;
    case 6: { bad = t; size_t at = s.below(bad.size() + 1); static const std::string ctl = "\x01\x7f\x80\xff\xc3\v"; bad.insert(at, 1, ctl[s.below(6)]); strm = false; break; }
    default: bad = t + " +" + std::string((size_t)s.range(0, 5), ' '); break;
    }
    NOTE("malformed '" << bad << "'");
    QP p; CHECK(fmpq_poly_set_str_pretty(p.v, bad.c_str(), g.c_str()) != 0, "accepted", "the malformed expression '" << bad << "' is read as " << orc::str(p.get()));
    { ZPoly keep = {mpz_class(4), mpz_class(5)}; ZP z(keep); CHECK(fmpz_poly_set_str_pretty(z.v, bad.c_str(), g.c_str()) != 0, "accepted", "the malformed expression '" << bad << "' is read as an integer polynomial"); }
    Elem e = elem(s, C.F.K, 40); X x = make_x(s, C, e);
    bool ok = false; try { X y(*C.K, bad); } catch (const std::invalid_argument&) { ok = true; } CHECK(ok, "accepted", "an element is made from the malformed expression '" << bad << "'");
    ok = false; try { x = X(*C.K, bad); } catch (const std::invalid_argument&) { ok = true; } CHECK(ok && read_x(x, C.F.K) == e, "changed", "assignment from malformed text");
    if (strm) {
        std::istringstream in("(" + bad + ")"); C.K->set_pword(in);
        ok = false; try { in >> x; } catch (const std::invalid_argument&) { ok = true; }
        CHECK(ok, "stream-accepted", "the malformed text (" << bad << ") is read from a stream as " << x.to_string(EANTIC_STR_ALG)); CHECK(read_x(x, C.F.K) == e, "changed", "reading malformed text changed the element");
    }
    if (t.find('(') == std::string::npos) {   // unbalanced parenthesis
        std::istringstream in("(" + t); C.K->set_pword(in);
        ok = false; try { in >> x; } catch (const std::invalid_argument&) { ok = true; }
        CHECK(ok, "stream-accepted", "the unterminated text (" << t << " is read from a stream"); CHECK(read_x(x, C.F.K) == e, "changed", "reading malformed text changed the element");
    }
    // the generator must be a name, and the polynomial an expression in it
    static const std::vector<std::string> names = {"", "3a", "a b", "x+", "-x", "x^2", " x", "x ", "1", "a-b", "x*", "x.y", "\xc3\xa4"};
    std::string nm = s.one(names); ok = false; try { (void)renf_class::make(nm + "^2 - 2", nm, "1.4 +/- 0.1"); } catch (const std::invalid_argument&) { ok = true; } CHECK(ok, "name", "the name '" << nm << "' is accepted for a generator");
    ok = false; try { (void)renf_class::make(bad, g, "1.4 +/- 0.1"); } catch (const std::invalid_argument&) { ok = true; } CHECK(ok, "minpoly", "a field is made from the malformed polynomial '" << bad << "'");
    X g2(*C.K, g); CHECK(read_x(g2, C.F.K) == Elem::gen(C.F.K), "after", "parsing after an error");
    nontrivial();
}
PROPERTY("C10.malformed", c10_malformed, 40000, 400000, 20, "well formed expressions broken in one place, and malformed names and polynomials: always refused, and the target is unchanged; every case is non-trivial");

static void c10_bytes(Src& s) {
    CppField C = cpp_field(s, NO_EXTREME, 4); const std::string& g = C.name;
    std::string t; size_t n = s.below(40);
    if (s.chance(2, 3)) {        // a well formed text with a few bytes changed
        t = expression(s, g, false, 9, s.chance(1, 2)).text; n = 0;
        for (size_t k = s.below(4); k-- > 0 && !t.empty();) {
            size_t at = s.below(t.size()); static const std::string abc = "0123456789+-*/^ ()~";
            switch (s.below(4)) { case 0: t.erase(at, 1); break; case 1: t.insert(at, 1, abc[s.below(abc.size())]); break; case 2: t[at] = s.chance(1, 6) ? (char)s.below(256) : abc[s.below(abc.size())]; break; default: t = t.substr(0, at) + t.substr(s.below(t.size())); }
        }
    }
    for (size_t i = 0; i < n; i++) switch (s.pick({6, 6, 3, 2, 2, 1, 1})) {
        case 0: t += (char)('0' + s.below(10)); break;
        case 1: t += "+-*/^ "[s.below(6)]; break;
        case 2: t += g; break;
        case 3: t += ' '; break;
        case 4: t += "()~._"[s.below(5)]; break;
        case 5: t += (char)s.below(256); break;
        default: t += g.substr(0, s.below(g.size() + 1)); break;
    }
    { std::string u; size_t run = 0; for (char c : t) { if (isdigit((unsigned char)c)) { if (++run > 3) continue; } else run = 0; u += c; } t = u; }     // exponents are memory
    NOTE("text '" << t << "'");
    QP p, q; std::string z(t.c_str()); bool paren = z.find_first_of("()") != std::string::npos; (void)paren;
    int err = fmpq_poly_set_str_pretty(p.v, z.c_str(), g.c_str());
    bool ok = true; X x; try { x = X(*C.K, t); } catch (const std::invalid_argument&) { ok = false; }
    if (z.find('~') == std::string::npos) CHECK(ok == !err, "agree", "element and polynomial parser disagree on '" << z << "'");
    if (!err) {
        std::string more = z + " + 1"; CHECK(fmpq_poly_set_str_pretty(q.v, more.c_str(), g.c_str()) == 0, "extend", "'" << z << "' is accepted but '" << more << "' is not");
        QPoly a = p.get(), b = q.get(); if (a.empty()) a.resize(1); a[0] += 1; orc::trim(a); CHECK(a == b, "extend", "'" << z << "' and '" << more << "' are inconsistent");
        std::string w = own(fmpq_poly_get_str_pretty(p.v, g.c_str())); CHECK(fmpq_poly_set_str_pretty(q.v, w.c_str(), g.c_str()) == 0 && q.get() == p.get(), "reprint", "'" << z << "' reads as " << w << " which does not read back");
        if (z.find('~') == std::string::npos) CHECK(read_x(x, C.F.K) == Elem::from(C.F.K, p.get()), "agree", "element and polynomial parser disagree on '" << z << "'");
        if (z.find_first_of("0123456789") != std::string::npos || z.find(g) != std::string::npos) nontrivial();
    }
    std::istringstream in(t); C.K->set_pword(in); X y = C.K->gen();
    for (int i = 0; i < 4 && in.good(); i++) { X before = y; try { in >> y; } catch (const std::invalid_argument&) { CHECK(before == y, "changed", "refused text changed the element"); } (void)y.floor(); }
    // anything as an embedding: refused or a root of the polynomial
    try { auto K = renf_class::make(C.F.pol_str(g), g, t, (slong)s.range(30, 100)); X h = K->gen(), v = h - h; for (size_t i = C.F.pol.size(); i-- > 0;) v = v * h + X(*K, C.F.pol[i]); CHECK(v == 0, "embedding", "field from '" << t << "'"); } catch (const std::invalid_argument&) {}
}
PROPERTY("C10.bytes", c10_bytes, 40000, 400000, 20, "random byte strings, mostly over the alphabet of the parser, given to every parser: no crash, parsers agree, accepted text is consistent with its extensions and its own output; non-trivial: accepted with some content");

// ------------------------------------------------------------------ C11
struct Kind { FieldSpec F; std::string name; };
static void check_kind(const renf_class& K, const Kind& k, const std::string& what) {
    QP p; fmpq_poly_set(p.v, K.renf_t()->nf->pol);
    CHECK(p.get() == k.F.pol, "minpoly", what << ": polynomial " << orc::str(p.get()) << " instead of " << orc::str(k.F.pol));
    CHECK(K.gen_name() == k.name, "name", what << ": generator " << K.gen_name() << " instead of " << k.name);
    CHECK(encloses(K.gen().renf_elem_t()->emb, Elem::gen(k.F.K)) && encloses(K.renf_t()->emb, Elem::gen(k.F.K)), "root", what << ": another root, " << arb_s(K.renf_t()->emb));
    if (k.F.d > 1) { orc::Sturm st(k.F.f); mpq_class lo, hi; arb_bounds(lo, hi, K.renf_t()->emb); CHECK(st.count(lo, hi) == 1, "root", what << ": enclosure contains several roots"); }
}
static Kind vary(Src& s, const Kind& b) {
    Kind k = b;
    switch (s.below(3)) {
    case 0: if (b.F.roots.size() > 1) { size_t i = s.below(b.F.roots.size()); k.F.index = i; k.F.K = std::make_shared<orc::Field>(k.F.f, k.F.roots[i]); return k; } /* fall through */
    case 1: k.name = s.chance(1, 2) ? gen_name(s) : similar_name(s, b.name); return k;
    default: return {field(s, s.chance(1, 5) ? 0 : NO_LINEAR, 6), gen_name(s)};
    }
}
static KP make_kind(Src& s, const Kind& k) {
    KP K = make_class(s, k.F, k.name);
    if (k.F.d > 1 && s.chance(1, 3)) { slong p = (slong)s.range(2, 600); NOTE("  refine " << p); renf_refine_embedding(K->renf_t(), p); }
    return K;
}
static void c11_construction(Src& s) {
    Kind k{field(s), gen_name(s)};
    Coarse guard(s.chance(1, 5)); if (coarse && k.F.roots.size() > 1) k.F = far_from_zero(s, k.F);
    label(k.F.family);
    KP K = make_kind(s, k);
    auto c = K->construction(); const renf_class* at = K.get(); const slong prec = K->renf_t()->prec;
    NOTE("construction " << std::get<0>(c) << " | " << std::get<1>(c) << " | " << std::get<2>(c) << " | " << std::get<3>(c));
    { KP L = renf_class::make(std::get<0>(c), std::get<1>(c), std::get<2>(c), std::get<3>(c)); CHECK(L.get() == at, "same", "the construction of a field gives another field"); }
    if (s.chance(1, 2)) { mpz_class f = (K->gen() * 12345678).floor(); (void)f; c = K->construction(); }
    K.reset();
    for (int i = 0; i < 2; i++) { KP L = renf_class::make(std::get<0>(c), std::get<1>(c), std::get<2>(c), std::get<3>(c)); check_kind(*L, k, "reconstructed field"); if (!i) CHECK(L->renf_t()->prec == prec, "precision", "a field of " << prec << " bits is recreated with " << L->renf_t()->prec << " bits"); KP M = make_class(s, k.F, k.name); CHECK(M == L, "same", "a field made from its construction is not the field"); c = L->construction(); }
    if (k.F.d > 1) nontrivial();
}
PROPERTY("C11.construction", c11_construction, 40000, 400000, 20, "the reported construction of random fields, before and after refinements, recreates the field while it is alive and after it is gone; non-trivial: degree > 1");

struct Item { int type; size_t kind; std::vector<Elem> v; };        // 0 element, 1 field, 2 vector of elements
template <class A> static void save_one(A& ar, const X& x) { ar(x); }
template <class Out, class In> static void archive_case(Src& s, const std::vector<Kind>& U, std::vector<Item> items, bool keep, const char* aname) {
    std::stringstream st(std::ios::in | std::ios::out | std::ios::binary);
    std::vector<KP> hold; const std::string label_ = aname;
    std::vector<const renf_class*> seen;
    {
        Out ar(st);
        for (auto& it : items) {
            const Kind& k = U[it.kind]; KP K = make_kind(s, k); if (keep) hold.push_back(K);
            CppField C{k.F, K, k.name};
            if (it.type == 1) { NOTE("save field of kind " << it.kind); ar(K); }
            else if (it.type == 0) { X x = make_x(s, C, it.v[0]); NOTE("save " << it.v[0].str() << " of kind " << it.kind); ar(x); }
            else { std::vector<X> xs; for (auto& e : it.v) xs.push_back(make_x(s, C, e)); NOTE("save a vector of " << xs.size() << " elements of kind " << it.kind); ar(xs); }
            if (!keep && s.chance(1, 3)) hold.push_back(K);
            if (!hold.empty() && s.chance(1, 3)) hold.erase(hold.begin() + (long)s.below(hold.size()));
        }
    }
    if (!keep || s.chance(1, 2)) hold.clear();
    if (label_ == "json" && s.chance(1, 3)) {        // as written by versions before 1.0
        std::string t = st.str(), u; size_t at = 0, n;
        while ((n = std::min(t.find("\"id\":", at), t.find("\"parent\":", at))) != std::string::npos) {
            u += t.substr(at, n - at); at = n;
            if (t[n + 1] == 'i') { u += "\"shared\":"; at += 5; } else { if (s.chance(1, 2)) u += "\"cereal_class_version\": 0, "; u += "\"parent\":"; at += 9; }
        }
        u += t.substr(at); NOTE("legacy " << u); label("legacy"); st.str(u);
    }
    st.seekg(0);
    std::vector<std::pair<size_t, KP>> fields; std::vector<X> values; std::vector<const Elem*> want;
    {
        In ar(st);
        for (auto& it : items) {
            auto check = [&](const renf_class& K) { check_kind(K, U[it.kind], std::string(aname) + ": loaded field"); fields.push_back({it.kind, KP(&K)}); };
            if (it.type == 1) { KP K; if (s.chance(1, 2)) K = KP(&renf_class::make()); ar(K); check(*K); }
            else if (it.type == 0) { X x = s.chance(1, 2) ? X(5) : values.empty() ? X() : values[s.below(values.size())]; ar(x); check(x.parent()); values.push_back(x); want.push_back(&it.v[0]); }
            else { std::vector<X> xs; if (s.chance(1, 2)) xs.resize(2); ar(xs); CHECK(xs.size() == it.v.size(), "vector", aname << ": vector of length " << xs.size()); for (size_t i = 0; i < xs.size(); i++) { check(xs[i].parent()); values.push_back(xs[i]); want.push_back(&it.v[i]); } }
        }
    }
    for (auto& a : fields) for (auto& b : fields) CHECK((a.first == b.first) == (a.second == b.second), "shared", aname << ": fields of kinds " << a.first << " and " << b.first << (a.second == b.second ? " are the same" : " are different") << " after loading");
    for (size_t i = 0; i < values.size(); i++) { Elem got = read_x(values[i], want[i]->K); CHECK(got == *want[i], "value", aname << ": loaded " << got.str() << " instead of " << want[i]->str()); CHECK(encloses(values[i].renf_elem_t()->emb, *want[i]), "enclosure", aname << ": enclosure of " << want[i]->str()); }
}
static void c11_archive(Src& s) {
    std::vector<Kind> U; U.push_back({field(s, s.chance(1, 5) ? 0 : NO_LINEAR, 6), gen_name(s)});
    Coarse guard(s.chance(1, 5)); if (coarse && U[0].F.roots.size() > 1) U[0].F = far_from_zero(s, U[0].F);
    size_t nk = rare(s, 30) ? (size_t)s.range(5, 12) : (size_t)s.range(1, 4);
    for (int tries = 0; U.size() < nk && tries < 20; tries++) { Kind k = vary(s, U[s.below(U.size())]); bool dup = false; for (auto& u : U) dup |= u.name == k.name && u.F.pol == k.F.pol && u.F.index == k.F.index; if (!dup) U.push_back(k); }
    for (size_t i = 0; i < U.size(); i++) NOTE("kind " << i << ": " << orc::str(U[i].F.pol, U[i].name) << " root #" << U[i].F.index << " (" << U[i].F.family << ")");
    std::vector<Item> items; size_t n = rare(s, 30) ? (size_t)s.range(8, 40) : (size_t)s.range(1, 7); bool several = false;
    for (size_t i = 0; i < n; i++) {
        Item it; it.type = (int)s.pick({4, 2, 1}); it.kind = s.below(U.size()); several |= it.kind != 0;
        size_t m = it.type == 0 ? 1 : it.type == 1 ? 0 : (size_t)s.range(0, rare(s, 20) ? 12 : 3);
        for (size_t j = 0; j < m; j++) it.v.push_back(elem(s, U[it.kind].F.K, 60));
        items.push_back(it);
    }
    bool keep = s.chance(1, 2); NOTE((keep ? "fields are kept while saving" : "fields come and go while saving"));
    switch (s.below(4)) {
    case 0: NOTE("binary"); label("binary"); archive_case<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(s, U, items, keep, "binary"); break;
    case 1: NOTE("portable"); label("portable"); archive_case<cereal::PortableBinaryOutputArchive, cereal::PortableBinaryInputArchive>(s, U, items, keep, "portable"); break;
    case 2: NOTE("json"); label("json"); archive_case<cereal::JSONOutputArchive, cereal::JSONInputArchive>(s, U, items, keep, "json"); break;
    default: NOTE("xml"); label("xml"); archive_case<cereal::XMLOutputArchive, cereal::XMLInputArchive>(s, U, items, keep, "xml"); break;
    }
    if (several) { label("several-fields"); nontrivial(); }
}
PROPERTY("C11.archive", c11_archive, 30000, 300000, 20, "archives (binary, portable, JSON, XML) of elements, vectors of elements and fields of up to four closely related fields, with fields dropped while saving or before loading; non-trivial: several fields");
// the same in a process whose allocator reuses addresses at once
static void c11_reuse(Src& s) { c11_archive(s); }
PROPERTY("C11.reuse", c11_reuse, 20000, 200000, 20, "as C11.archive, with an allocator that reuses memory immediately, so that a dropped field and a later one share an address; non-trivial: several fields");
