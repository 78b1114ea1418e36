static const char *const MAP_NAMES[] = {"bs", "by_flag", "emmd", "emmf", "emms", "fb", "id", "ii", "inner_by_id", "kind_map", "m", "map_of_things", "mm", "part_by_name", "seen", "si", "sm", "sp", "ss", "st", "switch", "table", "template", "ub", "us", "values"};
static const char *const TEXT_NAMES[] = {"2nd", "after", "another", "bs", "camelCaseName", "delete", "emms", "emos", "emstr", "id_text", "label", "many", "name", "need", "note", "o2", "ostr", "other-Name", "part_name", "post", "pre", "rs", "s", "s1", "s10", "s12", "s20", "s255", "s300", "s5", "s7", "ss", "str", "tag", "tags", "tail", "text", "text_value", "tx", "txt", "us", "values", "z"};
