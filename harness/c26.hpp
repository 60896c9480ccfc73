#pragma once
#include "num.hpp"
#include "optable.hpp"

struct Control
{
	Op op;
	bool unsafe;
};
std::vector<Op> c26Ops();
std::vector<Control> c26Controls();
//! Construct an entity of the kind in place
void c26Make(int kind, double const * from, void * at);
