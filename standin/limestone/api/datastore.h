#pragma once
#include "limestone_standin.h"
