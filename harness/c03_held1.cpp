// C03: the sums and differences in all object histories and ways of holding operands
// (a unit of its own: it instantiates much and needs no optimisation)
#define MC_NO_MAIN
#include "history.hpp"

void histories1(mc::Ctx & cx)
{
	forKinds(GaKinds{}, [&](auto ta)
	{
		forKinds(GaKinds{}, [&](auto tb)
		{
			using A = TY(ta);
			using B = TY(tb);
			constexpr bool numbers{ std::is_same<A, double>::value && std::is_same<B, double>::value };
			if constexpr (! numbers)
			{
				if constexpr (has_sub<A, B>::value)
				{
					if constexpr (K<decltype(std::declval<A const &>() - std::declval<B const &>())>::is)
					{
						history::explore2<A, B>(cx, std::string(K<A>::name()) + " - " + K<B>::name()
							, [](auto && x, auto && y) -> decltype(auto) { return HELD(x) - HELD(y); });
					}
				}
			}
		});
	});
}
