// The shipped main() under another name.
#define main milo_app_main
#include <main.cpp>
