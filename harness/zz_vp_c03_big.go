package healer

// VP_C03_describe_acls with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C03_big_describe_acls() { vpBig(12, VP_C03_describe_acls) }

// VP_C03_create_acls with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C03_big_create_acls() { vpBig(12, VP_C03_create_acls) }

// VP_C03_delete_acls with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C03_big_delete_acls() { vpBig(12, VP_C03_delete_acls) }

// VP_C03_create_topics with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C03_big_create_topics() { vpBig(12, VP_C03_create_topics) }

// VP_C03_create_topics_reject with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C03_big_create_topics_reject() { vpBig(12, VP_C03_create_topics_reject) }

// VP_C03_delete_topics_groups with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C03_big_delete_topics_groups() { vpBig(12, VP_C03_delete_topics_groups) }

// VP_C03_create_partitions with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C03_big_create_partitions() { vpBig(12, VP_C03_create_partitions) }

// VP_C03_describe_configs with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C03_big_describe_configs() { vpBig(12, VP_C03_describe_configs) }

// VP_C03_alter_configs with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C03_big_alter_configs() { vpBig(12, VP_C03_alter_configs) }

// VP_C03_incremental_ops with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C03_big_incremental_ops() { vpBig(12, VP_C03_incremental_ops) }

// VP_C03_alter_reassign with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C03_big_alter_reassign() { vpBig(12, VP_C03_alter_reassign) }

// VP_C03_topic_partitions with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C03_big_topic_partitions() { vpBig(12, VP_C03_topic_partitions) }
