"""Build settings of single checks."""
WRAP = """memcpy memmove memset memcmp memchr strlen strcmp strncmp strcasecmp strncasecmp strcpy strncpy strcat
strchr strrchr strstr strdup strtod strtol strtoul strtoll strtoull strtoimax strtoumax atof atoi fwrite fread setlocale
localeconv strtok gmtime localtime ctime asctime regcomp regexec regfree xmlCleanupParser xmlReaderForIO
xmlTextReaderRead xmlNewTextWriter vsnprintf snprintf sprintf
_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_
_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_""".split()
SPECIAL = {"P28": {"mode": "sched", "libs": ["-Wl,--wrap=" + w for w in WRAP]},
           "P31": {"program": "varsh"}}
