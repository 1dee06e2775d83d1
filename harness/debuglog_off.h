// A translation unit's view of Debug.h in a release build (compiled without DEBUG_SERIAL_OUT).
int releaseBuildStatements(int& evaluated);
