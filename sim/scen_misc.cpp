#include "misc.hpp"
static const Scenario s12 = { "C12", gen12, exec12 }, s13 = { "C13", gen13, exec13 }, s15 = { "C15", gen15, exec15 };
const Scenario *const scenarios[] = { &s12, &s13, &s15, nullptr };
