/* the parser of /repo with other compile-time options */
#define INI_USE_STACK 0
#define ini_parse v7_ini_parse
#define ini_parse_file v7_ini_parse_file
#define ini_parse_stream v7_ini_parse_stream
#define ini_parse_string v7_ini_parse_string
#include <../src/ini.c>
