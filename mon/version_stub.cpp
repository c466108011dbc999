// stands in for the file the build system generates
const char* engpar_version() { return "monitored"; }
