package healer

// VP_C02_header with one of its strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C02_big_header() { vpBig(1, VP_C02_header) }

// VP_C02_produce with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C02_big_produce() { vpBig(12, VP_C02_produce) }

// VP_C02_fetch with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C02_big_fetch() { vpBig(12, VP_C02_fetch) }

// VP_C02_fetch_two_topics with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C02_big_fetch_two_topics() { vpBig(12, VP_C02_fetch_two_topics) }

// VP_C02_list_offsets with one of its first 2 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C02_big_list_offsets() { vpBig(2, VP_C02_list_offsets) }

// VP_C02_metadata with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C02_big_metadata() { vpBig(12, VP_C02_metadata) }

// VP_C02_offset_commit with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C02_big_offset_commit() { vpBig(12, VP_C02_offset_commit) }

// VP_C02_offset_fetch with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C02_big_offset_fetch() { vpBig(12, VP_C02_offset_fetch) }

// VP_C02_find_coordinator with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C02_big_find_coordinator() { vpBig(12, VP_C02_find_coordinator) }

// VP_C02_heartbeat with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C02_big_heartbeat() { vpBig(12, VP_C02_heartbeat) }

// VP_C02_leave_group with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C02_big_leave_group() { vpBig(12, VP_C02_leave_group) }

// VP_C02_sync_group with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C02_big_sync_group() { vpBig(12, VP_C02_sync_group) }

// VP_C02_join_group with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C02_big_join_group() { vpBig(12, VP_C02_join_group) }

// VP_C02_describe_groups with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C02_big_describe_groups() { vpBig(12, VP_C02_describe_groups) }

// VP_C02_list_groups with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C02_big_list_groups() { vpBig(12, VP_C02_list_groups) }

// VP_C02_session with one of its first 12 strings, byte arrays and lists long (127 or 16383 bytes, 127 elements) and the others short.
func VP_C02_big_session() { vpBig(12, VP_C02_session) }
