// A broad list of runs: every method with sets of options, dialogues with good and bad answers, files, many curves.
#pragma once
#include "streams.h"
std::vector<Case> broad_cases();
