#include "world.h"
using namespace sim;
namespace {
enum Suit { CLUBS, HEARTS, SPADES = 40 };
int cells[64];
}
namespace sim {
template <> struct Val<bool> : ValNum<bool, 220> {
    static bool make(int v) { return v & 1; }
    static void set(bool& x, int v) { x = make(v); }
    static u64 canon_of(int v) { return canon(make(v)); }
};
template <> struct Val<int*> : ValNum<int, 221> {
    static u64 canon(int* const& p) { return p ? static_cast<u64>(p - cells) + 1 : 0; }
    static int* make(int v) { return v % 5 ? cells + (v & 63) : static_cast<int*>(0); }
    static void set(int*& x, int v) { x = make(v); }
    static u64 canon_of(int v) { return canon(make(v)); }
};
template <> struct Val<const int*> : ValNum<int, 222> {
    static u64 canon(const int* const& p) { return p ? static_cast<u64>(p - cells) + 1 : 0; }
    static const int* make(int v) { return Val<int*>::make(v); }
    static void set(const int*& x, int v) { x = make(v); }
    static u64 canon_of(int v) { return canon(make(v)); }
};
template <> struct Val<Suit> : ValNum<int, 223> {
    static u64 canon(const Suit& p) { return static_cast<u64>(p); }
    static Suit make(int v) { return v % 3 == 0 ? CLUBS : v % 3 == 1 ? HEARTS : SPADES; }
    static void set(Suit& x, int v) { x = make(v); }
    static u64 canon_of(int v) { return canon(make(v)); }
};
}
namespace {
// Scalars that convert to one another in ways nobody wants: pointers and enumerations to bool, enumerations to int.
struct Scal : CfgDefaults {
    typedef El<1> A; typedef El<2, F_NTMOVE> B;
    typedef boost::variant<bool, A, int*, Suit, const int*, B, int> V;
    typedef TL<bool, A, int*, Suit, const int*, B, int> alts;
    typedef boost::variant<Suit, int*, A, bool> F;
    typedef TL<Suit, int*, A, bool> falts;
    static int fmap(int k) { return k == 0 ? 3 : k == 1 ? 2 : k == 2 ? 1 : 0; }
    enum { foreign = 1 };
    static const char* name() { return "scalars"; }
};
SIM_CFG(Scal)
}
