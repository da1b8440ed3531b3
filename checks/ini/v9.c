/* the parser of /repo with other compile-time options */
#define INI_MAX_LINE 3
#define INI_USE_STACK 0
#define INI_ALLOW_MULTILINE 0
#define INI_ALLOW_INLINE_COMMENTS 0
#define INI_STOP_ON_FIRST_ERROR 1
#define ini_parse v9_ini_parse
#define ini_parse_file v9_ini_parse_file
#define ini_parse_stream v9_ini_parse_stream
#define ini_parse_string v9_ini_parse_string
#include <../src/ini.c>
