/* the parser of /repo with other compile-time options */
#define INI_HANDLER_LINENO 1
#define ini_parse v4_ini_parse
#define ini_parse_file v4_ini_parse_file
#define ini_parse_stream v4_ini_parse_stream
#define ini_parse_string v4_ini_parse_string
#include <../src/ini.c>
