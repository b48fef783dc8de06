#pragma once
#include <string>
class TLeaf { public: std::string name; double value = 0; const char *GetName() const { return name.c_str(); } double GetValue(int = 0) const { return value; } };
