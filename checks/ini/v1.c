/* the parser of /repo with other compile-time options */
#define INI_ALLOW_MULTILINE 0
#define ini_parse v1_ini_parse
#define ini_parse_file v1_ini_parse_file
#define ini_parse_stream v1_ini_parse_stream
#define ini_parse_string v1_ini_parse_string
#include <../src/ini.c>
