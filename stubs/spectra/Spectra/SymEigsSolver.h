#pragma once
#include "symspectra.h"
