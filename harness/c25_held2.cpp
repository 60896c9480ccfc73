// C25: the same for products, sums and differences
#define MC_NO_MAIN
#include "history.hpp"

void held2(mc::Ctx & cx)
{
	forKinds(GaKinds{}, [&](auto ta)
	{
		forKinds(GaKinds{}, [&](auto tb)
		{
			using A = TY(ta);
			using B = TY(tb);
			std::string const a(K<A>::name()), b(K<B>::name());
			if constexpr (has_mul<A, B>::value) { history::exploreHeld2<A, B>(cx, a + " * " + b, [](auto && x, auto && y) -> decltype(auto) { return HELD(x) * HELD(y); }); }
			if constexpr (has_add<A, B>::value) { history::exploreHeld2<A, B>(cx, a + " + " + b, [](auto && x, auto && y) -> decltype(auto) { return HELD(x) + HELD(y); }); }
			if constexpr (has_sub<A, B>::value) { history::exploreHeld2<A, B>(cx, a + " - " + b, [](auto && x, auto && y) -> decltype(auto) { return HELD(x) - HELD(y); }); }
		});
	});
}
