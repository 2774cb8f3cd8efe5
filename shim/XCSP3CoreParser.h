// A stand-in for the XCSP3-CPP-Parser library, which is not installed here. It declares what the XCSP program uses of that
// library, and reads, rather than XML, one callback per line: a name and its arguments, lists in brackets.
#ifndef VERIF_XCSP3_STAND_IN
#define VERIF_XCSP3_STAND_IN
#include <climits>
#include <cstdlib>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#define STAR INT_MAX

namespace XCSP3Core
{
    using std::string;
    using std::vector;
    enum class OrderType { LE, LT, GE, GT, IN, EQ, NE, NOTIN };
    enum class OperandType { INTEGER, INTERVAL, VARIABLE, SET };
    enum class RankType { ANY, FIRST, LAST };
    enum class ExpressionObjective { EXPRESSION_O, SUM_O, PRODUCT_O, MINIMUM_O, MAXIMUM_O, NVALUES_O, LEX_O };
    enum class ExpressionType { OUNDEF, ONEG, OABS, OSQR, OADD, OSUB, OMUL, ODIV, OMOD, OPOW, ODIST, OMIN, OMAX, OLT, OLE, OGE, OGT, ONE, OEQ, OSET, OIN, ONOTIN, ONOT, OAND, OOR, OXOR, OIFF, OIMP, OIF, OCARD, OUNION, OINTER, ODIFF, OSDIFF, OHULL, ODJOINT, OSUBSET, OSUBSEQ, OSUPSEQ, OSUPSET, OCONVEX, OFDIV, OFMOD, OSQRT, ONROOT, OEXP, OLN, OLOG, OSIN, OCOS, OTAN, OASIN, OACOS, OATAN, OSINH, OCOSH, OTANH, OVAR, OPAR, OLONG, ORATIONAL, ODECIMAL, OSTRING, OSYMBOL, OFAKEOP };

    inline auto words() -> const vector<std::pair<string, ExpressionType>> &
    {
        using enum ExpressionType;
        static const vector<std::pair<string, ExpressionType>> w{{"neg", ONEG}, {"abs", OABS}, {"sqr", OSQR}, {"add", OADD}, {"sub", OSUB}, {"mul", OMUL}, {"div", ODIV}, {"mod", OMOD}, {"pow", OPOW}, {"dist", ODIST}, {"min", OMIN}, {"max", OMAX}, {"lt", OLT}, {"le", OLE}, {"ge", OGE}, {"gt", OGT}, {"ne", ONE}, {"eq", OEQ}, {"set", OSET}, {"in", OIN}, {"notin", ONOTIN}, {"not", ONOT}, {"and", OAND}, {"or", OOR}, {"xor", OXOR}, {"iff", OIFF}, {"imp", OIMP}, {"if", OIF}, {"card", OCARD}};
        return w;
    }
    inline auto operatorToString(ExpressionType t) -> string
    {
        for (auto & [n, x] : words())
            if (x == t)
                return n;
        return "no_kidding";
    }

    class XVariable
    {
    public:
        string id;
    };
    class XInterval
    {
    public:
        int min, max;
    };
    class XTransition
    {
    public:
        string from;
        int val;
        string to;
    };
    class XCondition
    {
    public:
        string var;
        int val = 0, min = 0, max = 0;
        vector<int> set;
        OperandType operandType = OperandType::INTEGER;
        OrderType op = OrderType::EQ;
    };
    class Node
    {
    public:
        ExpressionType type;
        vector<Node *> parameters;
        explicit Node(ExpressionType t) : type(t) {}
        virtual ~Node()
        {
            for (auto * p : parameters)
                delete p;
        }
    };
    class NodeConstant : public Node
    {
    public:
        int val;
        explicit NodeConstant(int v) : Node(ExpressionType::ODECIMAL), val(v) {}
    };
    class NodeVariable : public Node
    {
    public:
        string var;
        explicit NodeVariable(string v) : Node(ExpressionType::OVAR), var(v) {}
    };
    class Tree
    {
    public:
        Node * root;
        explicit Tree(Node * r) : root(r) {}
        ~Tree() { delete root; }
    };

    class XCSP3CoreCallbacks
    {
        using V = vector<XVariable *>;
        [[noreturn]] static auto no(const char * what) -> void { throw std::runtime_error(string{what} + " is not yet supported"); }

    public:
        bool intensionUsingString = true, recognizeSpecialIntensionCases = true, recognizeSpecialCountCases = true;
        virtual ~XCSP3CoreCallbacks() = default;
        virtual void buildVariableInteger(string, int, int) { no("variable"); }
        virtual void buildVariableInteger(string, vector<int> &) { no("variable"); }
        virtual void buildConstraintExtension(string, V, vector<vector<int>> &, bool, bool) { no("extension"); }
        virtual void buildConstraintExtension(string, XVariable *, vector<int> &, bool, bool) { no("extension"); }
        virtual void buildConstraintExtensionAs(string, V, bool, bool) { no("extension"); }
        virtual void buildConstraintIntension(string, Tree *) { no("intension"); }
        virtual void buildConstraintRegular(string, V &, string, vector<string> &, vector<XTransition> &) { no("regular"); }
        virtual void buildConstraintMDD(string, V &, vector<XTransition> &) { no("mdd"); }
        virtual void buildConstraintAlldifferent(string, V &) { no("allDifferent"); }
        virtual void buildConstraintAlldifferentMatrix(string, vector<V> &) { no("allDifferent matrix"); }
        virtual void buildConstraintAlldifferentExcept(string, V &, vector<int> &) { no("allDifferent except"); }
        virtual void buildConstraintAllEqual(string, V &) { no("allEqual"); }
        virtual void buildConstraintNotAllEqual(string, V &) { no("notAllEqual"); }
        virtual void buildConstraintOrdered(string, V &, OrderType) { no("ordered"); }
        virtual void buildConstraintOrdered(string, V &, vector<int> &, OrderType) { no("ordered"); }
        virtual void buildConstraintLex(string, vector<V> &, OrderType) { no("lex"); }
        virtual void buildConstraintLexMatrix(string, vector<V> &, OrderType) { no("lex matrix"); }
        virtual void buildConstraintPrecedence(string, V &, bool) { no("precedence"); }
        virtual void buildConstraintPrecedence(string, V &, vector<int>, bool) { no("precedence"); }
        virtual void buildConstraintSum(string, V &, vector<int> &, XCondition &) { no("sum"); }
        virtual void buildConstraintSum(string, V &, XCondition &) { no("sum"); }
        virtual void buildConstraintCount(string, V &, vector<int> &, XCondition &) { no("count"); }
        virtual void buildConstraintAmong(string, V &, vector<int> &, int) { no("among"); }
        virtual void buildConstraintAtMost(string, V &, int, int) { no("atMost"); }
        virtual void buildConstraintAtLeast(string, V &, int, int) { no("atLeast"); }
        virtual void buildConstraintExactlyK(string, V &, int, int) { no("exactly"); }
        virtual void buildConstraintExactlyVariable(string, V &, int, XVariable *) { no("exactly"); }
        virtual void buildConstraintNValues(string, V &, XCondition &) { no("nValues"); }
        virtual void buildConstraintCardinality(string, V &, vector<int>, vector<int> &, bool) { no("cardinality"); }
        virtual void buildConstraintCardinality(string, V &, vector<int>, V &, bool) { no("cardinality"); }
        virtual void buildConstraintCardinality(string, V &, vector<int>, vector<XInterval> &, bool) { no("cardinality"); }
        virtual void buildConstraintMinimum(string, V &, XCondition &) { no("minimum"); }
        virtual void buildConstraintMaximum(string, V &, XCondition &) { no("maximum"); }
        virtual void buildConstraintElement(string, V &, int, XVariable *, RankType, int) { no("element"); }
        virtual void buildConstraintElement(string, V &, int, XVariable *, RankType, XVariable *) { no("element"); }
        virtual void buildConstraintElement(string, vector<int> &, int, XVariable *, RankType, XVariable *) { no("element"); }
        virtual void buildConstraintElement(string, vector<V> &, int, XVariable *, int, XVariable *, XVariable *) { no("element"); }
        virtual void buildConstraintElement(string, vector<V> &, int, XVariable *, int, XVariable *, int) { no("element"); }
        virtual void buildConstraintElement(string, vector<vector<int>> &, int, XVariable *, int, XVariable *, XVariable *) { no("element"); }
        virtual void buildConstraintChannel(string, V &, int) { no("channel"); }
        virtual void buildConstraintChannel(string, V &, int, V &, int) { no("channel"); }
        virtual void buildConstraintChannel(string, V &, int, XVariable *) { no("channel"); }
        virtual void buildConstraintNoOverlap(string, V &, vector<int> &, bool) { no("noOverlap"); }
        virtual void buildConstraintNoOverlap(string, V &, V &, bool) { no("noOverlap"); }
        virtual void buildConstraintNoOverlap(string, vector<V> &, vector<vector<int>> &, bool) { no("noOverlap"); }
        virtual void buildConstraintNoOverlap(string, vector<V> &, vector<V> &, bool) { no("noOverlap"); }
        virtual void buildConstraintCumulative(string, V &, vector<int> &, vector<int> &, XCondition &) { no("cumulative"); }
        virtual void buildConstraintCumulative(string, V &, vector<int> &, V &, XCondition &) { no("cumulative"); }
        virtual void buildConstraintCumulative(string, V &, V &, vector<int> &, XCondition &) { no("cumulative"); }
        virtual void buildConstraintCumulative(string, V &, V &, V &, XCondition &) { no("cumulative"); }
        virtual void buildConstraintBinPacking(string, V &, vector<int> &, XCondition &) { no("binPacking"); }
        virtual void buildConstraintBinPacking(string, V &, vector<int> &, vector<int> &, bool) { no("binPacking"); }
        virtual void buildConstraintBinPacking(string, V &, vector<int> &, V &, bool) { no("binPacking"); }
        virtual void buildConstraintBinPacking(string, V &, vector<int> &, vector<XCondition> &, int) { no("binPacking"); }
        virtual void buildConstraintCircuit(string, V &, int) { no("circuit"); }
        virtual void buildConstraintCircuit(string, V &, int, int) { no("circuit"); }
        virtual void buildConstraintCircuit(string, V &, int, XVariable *) { no("circuit"); }
        virtual void buildConstraintInstantiation(string, V &, vector<int> &) { no("instantiation"); }
        virtual void buildConstraintKnapsack(string, V &, vector<int> &, vector<int> &, XCondition, XCondition &) { no("knapsack"); }
        virtual void buildObjectiveMinimize(ExpressionObjective, V &, vector<int> &) { no("objective"); }
        virtual void buildObjectiveMaximize(ExpressionObjective, V &, vector<int> &) { no("objective"); }
        virtual void buildObjectiveMinimize(ExpressionObjective, V &) { no("objective"); }
        virtual void buildObjectiveMaximize(ExpressionObjective, V &) { no("objective"); }
        virtual void buildObjectiveMinimizeVariable(XVariable *) { no("objective"); }
        virtual void buildObjectiveMaximizeVariable(XVariable *) { no("objective"); }
        virtual void buildObjectiveMinimizeExpression(string) { no("objective"); }
        virtual void buildObjectiveMaximizeExpression(string) { no("objective"); }
    };

    class XCSP3CoreParser
    {
        struct T // a word, or a list
        {
            bool list = false;
            string s;
            vector<T> of;
        };
        using V = vector<XVariable *>;
        XCSP3CoreCallbacks * cb;
        std::map<string, std::unique_ptr<XVariable>> vars;
        static auto bad(const string & w) -> void
        {
            std::fputs(("stand-in parser: " + w + "\n").c_str(), stderr);
            std::_Exit(125);
        }
        static auto read(std::istringstream & in, bool nested) -> vector<T>
        {
            vector<T> out;
            for (string w; in >> w;) {
                if (w == "]")
                    return nested ? out : (bad("stray ]"), out);
                T t;
                if (w == "[") {
                    t.list = true;
                    t.of = read(in, true);
                }
                else
                    t.s = w;
                out.push_back(t);
            }
            if (nested)
                bad("missing ]");
            return out;
        }
        static auto number(const string & s) -> bool { return ! s.empty() && (std::isdigit(s[0]) || (s[0] == '-' && s.size() > 1)); }
        static auto i(const T & t) -> int
        {
            if (t.s == "*")
                return STAR;
            if (t.list || ! number(t.s))
                bad("number expected, got " + t.s);
            return std::atoi(t.s.c_str());
        }
        auto v(const T & t) -> XVariable *
        {
            auto it = vars.find(t.s);
            if (t.list || it == vars.end())
                bad("variable expected, got " + t.s);
            return it->second.get();
        }
        static auto is(const T & t) -> vector<int>
        {
            vector<int> o;
            for (auto & x : t.of)
                o.push_back(i(x));
            return o;
        }
        static auto iss(const T & t) -> vector<vector<int>>
        {
            vector<vector<int>> o;
            for (auto & x : t.of)
                o.push_back(is(x));
            return o;
        }
        auto vs(const T & t) -> V
        {
            V o;
            for (auto & x : t.of)
                o.push_back(v(x));
            return o;
        }
        auto vss(const T & t) -> vector<V>
        {
            vector<V> o;
            for (auto & x : t.of)
                o.push_back(vs(x));
            return o;
        }
        static auto op(const T & t) -> OrderType
        {
            static const std::map<string, OrderType> m{{"le", OrderType::LE}, {"lt", OrderType::LT}, {"ge", OrderType::GE}, {"gt", OrderType::GT}, {"eq", OrderType::EQ}, {"ne", OrderType::NE}, {"in", OrderType::IN}, {"notin", OrderType::NOTIN}};
            auto it = m.find(t.s);
            if (it == m.end())
                bad("order expected, got " + t.s);
            return it->second;
        }
        static auto cond(const T & t) -> XCondition
        {
            XCondition c;
            c.op = op(t.of.at(0));
            auto & k = t.of.at(1).s;
            if (k == "i")
                c.val = i(t.of.at(2));
            else if (k == "v") {
                c.operandType = OperandType::VARIABLE;
                c.var = t.of.at(2).s;
            }
            else if (k == "r") {
                c.operandType = OperandType::INTERVAL;
                c.min = i(t.of.at(2));
                c.max = i(t.of.at(3));
            }
            else {
                c.operandType = OperandType::SET;
                for (size_t x = 2; x < t.of.size(); ++x)
                    c.set.push_back(i(t.of[x]));
            }
            return c;
        }
        static auto node(const T & t) -> Node *
        {
            if (! t.list)
                return number(t.s) ? static_cast<Node *>(new NodeConstant(i(t))) : new NodeVariable(t.s);
            for (auto & [w, e] : words())
                if (w == t.of.at(0).s) {
                    auto * n = new Node(e);
                    for (size_t x = 1; x < t.of.size(); ++x)
                        n->parameters.push_back(node(t.of[x]));
                    return n;
                }
            bad("operator expected, got " + t.of.at(0).s);
            return nullptr;
        }
        static auto edges(const T & t) -> vector<XTransition>
        {
            vector<XTransition> o;
            for (auto & x : t.of)
                o.push_back(XTransition{x.of.at(0).s, i(x.of.at(1)), x.of.at(2).s});
            return o;
        }
        auto line(const vector<T> & t) -> void
        {
            auto & n = t.at(0).s;
            auto a = [&](size_t k) -> const T & { return t.at(k); };
            auto named = [&](const string & s) { vars.emplace(s, new XVariable{s}); };
            auto minmax = [&](auto f, auto g) {
                static const std::map<string, ExpressionObjective> m{{"sum", ExpressionObjective::SUM_O}, {"minimum", ExpressionObjective::MINIMUM_O}, {"maximum", ExpressionObjective::MAXIMUM_O}, {"product", ExpressionObjective::PRODUCT_O}, {"nvalues", ExpressionObjective::NVALUES_O}};
                auto e = m.at(a(1).s);
                auto x = vs(a(2));
                if (t.size() > 3) {
                    auto c = is(a(3));
                    f(e, x, c);
                }
                else
                    g(e, x);
            };
            if (n == "var") {
                named(a(1).s);
                cb->buildVariableInteger(a(1).s, i(a(2)), i(a(3)));
            }
            else if (n == "dom") {
                named(a(1).s);
                auto d = is(a(2));
                cb->buildVariableInteger(a(1).s, d);
            }
            else if (n == "extension") {
                auto tu = iss(a(2));
                cb->buildConstraintExtension("", vs(a(1)), tu, a(3).s == "support", false);
            }
            else if (n == "extension1") {
                auto tu = is(a(2));
                cb->buildConstraintExtension("", v(a(1)), tu, a(3).s == "support", false);
            }
            else if (n == "extensionas")
                cb->buildConstraintExtensionAs("", vs(a(1)), a(2).s == "support", false);
            else if (n == "intension") {
                Tree tree{node(a(1))};
                cb->buildConstraintIntension("", &tree);
            }
            else if (n == "regular") {
                auto x = vs(a(1));
                vector<string> f;
                for (auto & y : a(3).of)
                    f.push_back(y.s);
                auto e = edges(a(4));
                cb->buildConstraintRegular("", x, a(2).s, f, e);
            }
            else if (n == "mdd") {
                auto x = vs(a(1));
                auto e = edges(a(2));
                cb->buildConstraintMDD("", x, e);
            }
            else if (n == "alldifferent") {
                auto x = vs(a(1));
                cb->buildConstraintAlldifferent("", x);
            }
            else if (n == "alldifferentmatrix") {
                auto x = vss(a(1));
                cb->buildConstraintAlldifferentMatrix("", x);
            }
            else if (n == "alldifferentexcept") {
                auto x = vs(a(1));
                auto e = is(a(2));
                cb->buildConstraintAlldifferentExcept("", x, e);
            }
            else if (n == "allequal") {
                auto x = vs(a(1));
                cb->buildConstraintAllEqual("", x);
            }
            else if (n == "ordered") {
                auto x = vs(a(1));
                if (t.size() > 3) {
                    auto l = is(a(3));
                    cb->buildConstraintOrdered("", x, l, op(a(2)));
                }
                else
                    cb->buildConstraintOrdered("", x, op(a(2)));
            }
            else if (n == "lex" || n == "lexmatrix") {
                auto x = vss(a(1));
                n == "lex" ? cb->buildConstraintLex("", x, op(a(2))) : cb->buildConstraintLexMatrix("", x, op(a(2)));
            }
            else if (n == "precedence") {
                auto x = vs(a(1));
                if (t.size() > 3)
                    cb->buildConstraintPrecedence("", x, is(a(2)), a(3).s == "covered");
                else
                    cb->buildConstraintPrecedence("", x, false);
            }
            else if (n == "sum") {
                auto x = vs(a(1));
                auto c = cond(a(2));
                if (t.size() > 3) {
                    auto k = is(a(3));
                    cb->buildConstraintSum("", x, k, c);
                }
                else
                    cb->buildConstraintSum("", x, c);
            }
            else if (n == "count") {
                auto x = vs(a(1));
                auto k = is(a(2));
                auto c = cond(a(3));
                cb->buildConstraintCount("", x, k, c);
            }
            else if (n == "among") {
                auto x = vs(a(1));
                auto k = is(a(2));
                cb->buildConstraintAmong("", x, k, i(a(3)));
            }
            else if (n == "atmost" || n == "atleast" || n == "exactly") {
                auto x = vs(a(1));
                if (n == "atmost")
                    cb->buildConstraintAtMost("", x, i(a(2)), i(a(3)));
                else if (n == "atleast")
                    cb->buildConstraintAtLeast("", x, i(a(2)), i(a(3)));
                else if (number(a(3).s))
                    cb->buildConstraintExactlyK("", x, i(a(2)), i(a(3)));
                else
                    cb->buildConstraintExactlyVariable("", x, i(a(2)), v(a(3)));
            }
            else if (n == "nvalues") {
                auto x = vs(a(1));
                auto c = cond(a(2));
                cb->buildConstraintNValues("", x, c);
            }
            else if (n == "cardinality") { // vars values kind occurs closed
                auto x = vs(a(1));
                bool closed = a(5).s == "closed";
                if (a(3).s == "i") {
                    auto o = is(a(4));
                    cb->buildConstraintCardinality("", x, is(a(2)), o, closed);
                }
                else if (a(3).s == "v") {
                    auto o = vs(a(4));
                    cb->buildConstraintCardinality("", x, is(a(2)), o, closed);
                }
                else {
                    vector<XInterval> o;
                    for (auto & y : a(4).of)
                        o.push_back(XInterval{i(y.of.at(0)), i(y.of.at(1))});
                    cb->buildConstraintCardinality("", x, is(a(2)), o, closed);
                }
            }
            else if (n == "minimum" || n == "maximum") {
                auto x = vs(a(1));
                auto c = cond(a(2));
                n == "minimum" ? cb->buildConstraintMinimum("", x, c) : cb->buildConstraintMaximum("", x, c);
            }
            else if (n == "element") { // kind list start index rank value
                auto rank = a(5).s == "any" ? RankType::ANY : a(5).s == "first" ? RankType::FIRST : RankType::LAST;
                if (a(1).s == "i") {
                    auto l = is(a(2));
                    cb->buildConstraintElement("", l, i(a(3)), v(a(4)), rank, v(a(6)));
                }
                else {
                    auto l = vs(a(2));
                    if (number(a(6).s))
                        cb->buildConstraintElement("", l, i(a(3)), v(a(4)), rank, i(a(6)));
                    else
                        cb->buildConstraintElement("", l, i(a(3)), v(a(4)), rank, v(a(6)));
                }
            }
            else if (n == "elementmatrix") { // kind matrix startrow row startcol col value
                if (a(1).s == "i") {
                    auto m = iss(a(2));
                    cb->buildConstraintElement("", m, i(a(3)), v(a(4)), i(a(5)), v(a(6)), v(a(7)));
                }
                else {
                    auto m = vss(a(2));
                    if (number(a(7).s))
                        cb->buildConstraintElement("", m, i(a(3)), v(a(4)), i(a(5)), v(a(6)), i(a(7)));
                    else
                        cb->buildConstraintElement("", m, i(a(3)), v(a(4)), i(a(5)), v(a(6)), v(a(7)));
                }
            }
            else if (n == "channel") {
                auto x = vs(a(1));
                if (t.size() == 3)
                    cb->buildConstraintChannel("", x, i(a(2)));
                else if (a(3).list) {
                    auto y = vs(a(3));
                    cb->buildConstraintChannel("", x, i(a(2)), y, i(a(4)));
                }
                else
                    cb->buildConstraintChannel("", x, i(a(2)), v(a(3)));
            }
            else if (n == "nooverlap") { // kind origins lengths zeroignored
                bool z = a(4).s == "zeroignored";
                if (a(1).s == "i") {
                    auto x = vs(a(2));
                    auto l = is(a(3));
                    cb->buildConstraintNoOverlap("", x, l, z);
                }
                else if (a(1).s == "v") {
                    auto x = vs(a(2)), l = vs(a(3));
                    cb->buildConstraintNoOverlap("", x, l, z);
                }
                else if (a(1).s == "ii") {
                    auto x = vss(a(2));
                    auto l = iss(a(3));
                    cb->buildConstraintNoOverlap("", x, l, z);
                }
                else {
                    auto x = vss(a(2)), l = vss(a(3));
                    cb->buildConstraintNoOverlap("", x, l, z);
                }
            }
            else if (n == "cumulative") { // kinds origins lengths heights cond
                auto x = vs(a(2));
                auto c = cond(a(5));
                bool lv = a(1).s[0] == 'v', hv = a(1).s[1] == 'v';
                auto li = lv ? vector<int>{} : is(a(3)), hi = hv ? vector<int>{} : is(a(4));
                auto lx = lv ? vs(a(3)) : V{}, hx = hv ? vs(a(4)) : V{};
                if (lv && hv)
                    cb->buildConstraintCumulative("", x, lx, hx, c);
                else if (lv)
                    cb->buildConstraintCumulative("", x, lx, hi, c);
                else if (hv)
                    cb->buildConstraintCumulative("", x, li, hx, c);
                else
                    cb->buildConstraintCumulative("", x, li, hi, c);
            }
            else if (n == "binpacking") { // kind vars sizes what
                auto x = vs(a(2));
                auto s = is(a(3));
                auto & k = a(1).s;
                if (k == "cond") {
                    auto c = cond(a(4));
                    cb->buildConstraintBinPacking("", x, s, c);
                }
                else if (k == "conds") {
                    vector<XCondition> c;
                    for (auto & y : a(4).of)
                        c.push_back(cond(y));
                    cb->buildConstraintBinPacking("", x, s, c, 0);
                }
                else if (k == "capacities" || k == "loads") {
                    auto c = is(a(4));
                    cb->buildConstraintBinPacking("", x, s, c, k == "loads");
                }
                else {
                    auto c = vs(a(4));
                    cb->buildConstraintBinPacking("", x, s, c, k == "loadvars");
                }
            }
            else if (n == "circuit") {
                auto x = vs(a(1));
                if (t.size() == 3)
                    cb->buildConstraintCircuit("", x, i(a(2)));
                else if (number(a(3).s))
                    cb->buildConstraintCircuit("", x, i(a(2)), i(a(3)));
                else
                    cb->buildConstraintCircuit("", x, i(a(2)), v(a(3)));
            }
            else if (n == "instantiation") {
                auto x = vs(a(1));
                auto k = is(a(2));
                cb->buildConstraintInstantiation("", x, k);
            }
            else if (n == "knapsack") {
                auto x = vs(a(1));
                auto w = is(a(2)), p = is(a(3));
                auto c = cond(a(4)), d = cond(a(5));
                cb->buildConstraintKnapsack("", x, w, p, c, d);
            }
            else if (n == "minimize")
                minmax([&](auto e, auto & x, auto & c) { cb->buildObjectiveMinimize(e, x, c); }, [&](auto e, auto & x) { cb->buildObjectiveMinimize(e, x); });
            else if (n == "maximize")
                minmax([&](auto e, auto & x, auto & c) { cb->buildObjectiveMaximize(e, x, c); }, [&](auto e, auto & x) { cb->buildObjectiveMaximize(e, x); });
            else if (n == "minimizevar")
                cb->buildObjectiveMinimizeVariable(v(a(1)));
            else if (n == "maximizevar")
                cb->buildObjectiveMaximizeVariable(v(a(1)));
            else if (n == "minimizeexpression")
                cb->buildObjectiveMinimizeExpression(a(1).s);
            else
                bad("unknown callback " + n);
        }

    public:
        explicit XCSP3CoreParser(XCSP3CoreCallbacks * c) : cb(c) {}
        auto parse(const char * file) -> int
        {
            std::ifstream in{file};
            if (! in)
                throw std::runtime_error("cannot open " + string{file});
            for (string l; std::getline(in, l);) {
                if (l.empty())
                    continue;
                std::istringstream s{l};
                line(read(s, false));
            }
            return 0;
        }
    };
}
#endif
