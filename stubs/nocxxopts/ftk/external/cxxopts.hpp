#pragma once
#include <string>
#include <vector>
#include <sstream>
#include <map>
