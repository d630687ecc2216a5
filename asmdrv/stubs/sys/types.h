#pragma once
#include "../vstub.h"
