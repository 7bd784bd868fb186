package healer

// VP_C04_conn with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C04_big_conn() { vpBig(12, VP_C04_conn) }

// VP_C04_header with one of its first 3 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C04_big_header() { vpBig(3, VP_C04_header) }

// VP_C04_size with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C04_big_size() { vpBig(12, VP_C04_size) }

// VP_C04_group with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C04_big_group() { vpBig(12, VP_C04_group) }

// VP_C04_list_groups with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C04_big_list_groups() { vpBig(12, VP_C04_list_groups) }

// VP_C04_describe_groups with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C04_big_describe_groups() { vpBig(12, VP_C04_describe_groups) }

// VP_C04_metadata with one of its first 6 strings and byte arrays long (127 or 16383 bytes) and the others short.
func VP_C04_big_metadata() { vpBigStr(6, VP_C04_metadata) }

// VP_C04_list_offsets with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C04_big_list_offsets() { vpBig(12, VP_C04_list_offsets) }

// VP_C04_offset_commit_fetch with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C04_big_offset_commit_fetch() { vpBig(12, VP_C04_offset_commit_fetch) }

// VP_C04_produce with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C04_big_produce() { vpBig(12, VP_C04_produce) }
