#pragma once
#include "mat.h"
