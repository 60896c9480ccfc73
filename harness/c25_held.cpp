// C25: no operation alters an operand or depends on how the caller holds it
// (constant, variable, temporary); a unit of its own
#define MC_NO_MAIN
#include "history.hpp"

#include <sstream>

namespace
{
template <class A> std::string out(A && a) { std::ostringstream o; o << std::forward<A>(a); return o.str(); }
} // namespace

#define ONE(NAME, EXPR) history::exploreHeld<A>(cx, std::string(NAME) + " of " + K<A>::name(), [](auto && x) -> decltype(auto) { return EXPR; })
#define TWO(NAME, EXPR) history::exploreHeld2<A, A>(cx, std::string(NAME) + " of " + K<A>::name(), [](auto && x, auto && y) -> decltype(auto) { return EXPR; })

void held(mc::Ctx & cx)
{
	forKinds(GaKinds{}, [&](auto t)
	{
		using A = TY(t);
		constexpr bool blade{ K<A>::id >= kS && K<A>::id <= kT };
		ONE("the negative", -HELD(x));
		ONE("reverse", g3::reverse(HELD(x)));
		ONE("oddverse", g3::oddverse(HELD(x)));
		ONE("dirverse", g3::dirverse(HELD(x)));
		ONE("dual", g3::dual(HELD(x)));
		ONE("magSq", g3::magSq(HELD(x)));
		ONE("magnitude", g3::magnitude(HELD(x)));
		ONE("ampSq", g3::ampSq(HELD(x)));
		ONE("amplitude", g3::amplitude(HELD(x)));
		ONE("direction", g3::direction(HELD(x)));
		ONE("pairMagDirFrom", g3::pairMagDirFrom(HELD(x)));
		ONE("isValid", g3::isValid(HELD(x)));
		ONE("text", out(HELD(x)));
		TWO("nearlyEquals", g3::nearlyEquals(HELD(x), HELD(y)));
		TWO("nearlyEquals (1/8)", g3::nearlyEquals(HELD(x), HELD(y), .125));
		if constexpr (blade || K<A>::id == kSpin || K<A>::id == kImsp || K<A>::id == kMV)
		{
			ONE("fixed", g3::io::fixed(HELD(x)));
			ONE("enote", g3::io::enote(HELD(x)));
		}
		if constexpr (K<A>::id != kCplx && K<A>::id != kDplx) { TWO("equality", HELD(x) == HELD(y)); }
		if constexpr (K<A>::id != kMV) { ONE("promotion", g3::MultiVector(HELD(x))); }
		if constexpr (K<A>::id == kS || K<A>::id == kSpin || K<A>::id == kCplx || K<A>::id == kMV)
		{
			ONE("sq", g3::sq(HELD(x)));
			ONE("cube", g3::cube(HELD(x)));
		}
		if constexpr (blade || K<A>::id == kCplx || K<A>::id == kMV) { ONE("inverse", g3::inverse<A>(HELD(x))); }
		if constexpr (K<A>::id == kB || K<A>::id == kSpin || K<A>::id == kMV) { ONE("exp", g3::exp(HELD(x))); }
		if constexpr (K<A>::id == kSpin)
		{
			ONE("logG2", g3::logG2(HELD(x)));
			ONE("sqrtG2", g3::sqrtG2(HELD(x)));
			history::exploreHeld2<A, g3::BiVector>(cx, "logG2 and plane", [](auto && x, auto && y) -> decltype(auto) { return g3::logG2(HELD(x), HELD(y)); });
			history::exploreHeld2<A, g3::BiVector>(cx, "sqrtG2 and plane", [](auto && x, auto && y) -> decltype(auto) { return g3::sqrtG2(HELD(x), HELD(y)); });
		}
	});
}
