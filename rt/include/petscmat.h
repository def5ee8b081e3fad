#pragma once
#include "petscksp.h"
