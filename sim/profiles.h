#pragma once
#include "scenario.h"
struct World;
struct Rng;
struct Profile
{
	const char *id;
	void (*gen)(Rng &, Scenario &);
	void (*body)(World &);
};
const std::vector<Profile> &profiles();
extern std::string g_scratch;
