#include "tree.h"
using namespace sim;
typedef El<1> JNum;
typedef boost::make_recursive_variant<boost::blank, JNum, std::vector<boost::recursive_variant_>,
                                      std::map<int, boost::recursive_variant_> >::type Json;
typedef std::vector<Json> JArr;
typedef std::map<int, Json> JObj;
namespace sim {
typedef TL<boost::blank, JNum, JArr, JObj> JsonL;
template <> struct Val<JArr> : ValTree<JArr> {
    static u64 canon(const JArr& v) {
        u64 h = 99;
        CanonV<Json, JsonL> c;
        for (std::size_t i = 0; i < v.size(); ++i) h = canon_fold(h, boost::apply_visitor(c, v[i]));
        return h;
    }
    static JArr make(int v);
    static void set(JArr& x, int v) { JArr t(make(v)); x.swap(t); }
    static u64 canon_of(int v) { return canon(make(v)); }
    static u64 defv() { return 99; }
    static int tag() { return 222; }
};
template <> struct Val<JObj> : ValTree<JObj> {
    static u64 canon(const JObj& v) {
        u64 h = 98;
        CanonV<Json, JsonL> c;
        for (JObj::const_iterator i = v.begin(); i != v.end(); ++i) h = canon_fold(canon_fold(h, static_cast<u64>(i->first)), boost::apply_visitor(c, i->second));
        return h;
    }
    static JObj make(int v) {
        JObj o;
        for (int i = 0; i < v % 3; ++i) {
            if (i == 0) o[v] = Json(JNum(v, 0));
            else o[v + i] = Json(Val<JArr>::make(v / 4));
        }
        return o;
    }
    static void set(JObj& x, int v) { JObj t(make(v)); x.swap(t); }
    static u64 canon_of(int v) { return canon(make(v)); }
    static u64 defv() { return 98; }
    static int tag() { return 223; }
};
JArr Val<JArr>::make(int v) {
    JArr t;
    t.reserve(4);
    for (int i = 0; i < v % 4; ++i) {
        if (i == 0) t.push_back(Json());
        else if (i == 1) t.push_back(Json(JNum(v, 0)));
        else t.push_back(Json(Val<JObj>::make(v / 5)));
    }
    return t;
}
}
namespace {
struct JsonCfg : CfgDefaults {
    typedef Json V;
    typedef TL<boost::blank, JNum, boost::recursive_wrapper<JArr>, boost::recursive_wrapper<JObj> > alts;
    enum { tags = P10, exact = 0, plain = 0, stream = 0, rec = 1 };
    template <class W> static bool nest(W& w, const Op& op, int a, int b) {
        return Nest<W, JArr, 2, JsonL, VecKids<JArr, Json> >::run(w, op, a, b);
    }
    static const char* name() { return "json"; }
};
SIM_CFG(JsonCfg)
}
