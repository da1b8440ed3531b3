#pragma once
extern "C" {
typedef struct PC_tree_s
{
    int status;
    int id;
} PC_tree_t;
PC_tree_t PC_parse_string(char const*);
PC_tree_t PC_parse_path(char const*);
int PC_tree_destroy(PC_tree_t*);
}
