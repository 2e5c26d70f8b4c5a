---------------------------- MODULE GenFileSystem ----------------------------
(* Every call on every path, or pair of paths, of the tree the check prepares *)
EXTENDS Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Paths == {"@/a", "@/b", "@/b/a", "@/b/c", "@/d", "@/d/a", "@/d/c", "@/d/new", "@/e", "@/e/x", "@/f", "@/f/x", "@/g", "@/h", "@/k", "@/k/l", "@/k/n", "@/q", "@/z",
          "@/new", "@/new/x", "@/a/x", "@/b/../a", "@/./b", "@/b/c/..", "@/k/l/deeper", "a", "b/c", "new", "d/a"}
One == {"exists", "is_directory", "is_regular_file", "is_empty", "file_size", "hard_link_count", "last_write_time", "space", "create_directory", "create_directories", "remove",
        "remove_all", "canonical", "absolute", "list", "list_all"}
Two == {"rename", "create_hard_link", "copy_file", "copy", "create_symlink"}
Cases == { [call |-> c, paths |-> <<p>>] : c \in One, p \in Paths \union {"@", "@/.", "."} } \union { [call |-> c, paths |-> <<p, q>>] : c \in Two, p, q \in Paths }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
