#pragma once
#include <Minuit2/MnApplication.h>
