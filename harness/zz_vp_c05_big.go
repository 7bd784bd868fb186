package healer

// VP_C05_describe_acls with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C05_big_describe_acls() { vpBig(12, VP_C05_describe_acls) }

// VP_C05_create_acls with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C05_big_create_acls() { vpBig(12, VP_C05_create_acls) }

// VP_C05_delete_acls with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C05_big_delete_acls() { vpBig(12, VP_C05_delete_acls) }

// VP_C05_name_err with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C05_big_name_err() { vpBig(12, VP_C05_name_err) }

// VP_C05_elect_leaders with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C05_big_elect_leaders() { vpBig(12, VP_C05_elect_leaders) }

// VP_C05_describe_logdirs with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C05_big_describe_logdirs() { vpBig(12, VP_C05_describe_logdirs) }

// VP_C05_describe_configs with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C05_big_describe_configs() { vpBig(12, VP_C05_describe_configs) }

// VP_C05_alter_configs with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C05_big_alter_configs() { vpBig(12, VP_C05_alter_configs) }

// VP_C05_create_partitions with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C05_big_create_partitions() { vpBig(12, VP_C05_create_partitions) }

// VP_C05_alter_reassign with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C05_big_alter_reassign() { vpBig(12, VP_C05_alter_reassign) }

// VP_C05_list_reassign with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C05_big_list_reassign() { vpBig(12, VP_C05_list_reassign) }

// VP_C05_size with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C05_big_size() { vpBig(12, VP_C05_size) }
