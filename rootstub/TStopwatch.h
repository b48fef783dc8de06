#pragma once
class TStopwatch { public: void Start(bool = true) {} void Stop() {} double RealTime() { return 0; } };
