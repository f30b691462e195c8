#pragma once
#include <ostream>
