"""What each check runs: the contracts (Kani harnesses of /verif/kani) deciding each property."""

TRUSTED = [
    "Kani 0.68 and CBMC 6.11 (translation of MIR, memory model, SAT back end), rustc 1.9x nightly of Kani",
    "the contracts of /verif/kani state the property (their text was written from the SMBIOS specification)",
    "little-endian 64-bit target (x86_64), machine arithmetic modelled exactly by CBMC (no mathematical integers)",
    "the hooks of /repo (cfg dmi_verif / kani) only construct and expose private state; they run no code of their own",
]

FIND_STRING = "in callers of find_string its contract stands for it (n-th string or InvalidStringIndex); that contract is C07's"
UTF8 = "core::str::from_utf8 is replaced by its contract for texts of ASCII and FFh bytes (standard library, assumed)"

S_FIND = "RawStructure::find_string"

D09 = ["c09_bios", "c09_system", "c09_bios_language"]
D10 = ["c10_processor", "c10_cache"]
D11 = ["c11_baseboard", "c11_enclosure", "c11_port_connector"]
D12 = ["c12_system_slots"]
D13 = ["c13_physical_memory_array", "c13_memory_device", "c13_memory_device_flags", "c13_memory_error_32",
       "c13_memory_array_mapped_address", "c13_memory_device_mapped_address"]
D14 = ["c14_built_in_pointing_device", "c14_portable_battery", "c14_system_event_log", "c14_group_associations",
       "c14_configuration_options"]
C06 = ["c06_types", "c06_dispatch"] + ["c06_accept_%d" % i for i in range(5)]
C08 = ["c08_get_u8", "c08_get_u16", "c08_get_u32", "c08_get_u64", "c08_get_u128", "c08_get_slice", "c08_get_string"]
C15 = ["c15_" + n for n in ("info_type system baseboard enclosure processor cache port_connector system_slots "
                            "system_event_log physical_memory_array memory_device memory_error_32 "
                            "built_in_pointing_device").split()]
C16 = ["c16_reserved", "c16_significants", "c16_iter_u8", "c16_iter_u16", "c16_iter_u32", "c16_iter_u64", "c16_iter_u128",
       "c16_collect", "c16_back", "c16_flags"]
C17 = ["c17_event_log", "c17_access_method", "c17_device"]
C18 = ["c18_" + n for n in "cache_size cache_size_2 cache_configuration rom_size design_capacity voltage slot_pitch".split()]
C19 = ["c19_contained_step", "c19_peers_step", "c19_descriptors_step", "c19_items_step", "c19_languages_step",
       "c19_peer_devices"]
C19B = ["c19_contained_elements", "c19_languages", "c19_descriptors", "c19_slot_peers", "c19_group_items"]

# Contracts over loop invariants in /repo's source (Kani's loop contracts)
LOOPS = {"c04_nulnul_loop"}
# Contracts over private state: inductive steps of iterators and loops. Where one is not discharged the
# state may only be represented differently, and the contracts over observable behaviour decide
STEPS = LOOPS | set(C19[:-1]) | {"c14_options_count", "c03_sum_v2", "c03_sum_v3"}

STUBBED = set(D09 + D10 + D11 + D12 + D13 + D14 + C06 + C19 + C19B) - {"c13_memory_device_flags", "c19_peer_devices", "c06_types"} | {
    "c02_search_none", "c02_search_v2", "c02_search_v3", "c03_checksum_v2", "c03_checksum_v3", "c03_search_v2",
    "c03_search_v3", "c04_next_raw", "c05_error_ends", "c08_get_string"}

# Contracts whose proof runs on an unbounded object: no counterexample can be replayed from them
SYMBOLIC_ONLY = {"c04_next_raw"}

BOUNDS = {
    "c02_find_signature": "buffers of at most 84 bytes (all contents)",
    "c02_search_none": "buffers of at most 42 bytes",
    "c02_search_v2": "buffers of at most 60 bytes, anchor at 16",
    "c02_search_v3": "buffers of at most 60 bytes, anchor at 16",
    "c03_search_v2": "buffers of at most 44 bytes",
    "c03_search_v3": "buffers of at most 44 bytes",
    "c03_sum_v2": "buffers of at most 257 bytes, anchor at 0 (every content and stated length)",
    "c03_sum_v3": "buffers of at most 257 bytes, anchor at 0 (every content and stated length)",
    "c03_checksum_v2": "every stated length, bytes not interpreted all equal to 1",
    "c03_checksum_v3": "every stated length, bytes not interpreted all equal to 1",
    "c04_find_nulnul": "24 bytes (all contents)",
    "c07_find_string": "strings sections of at most 7 bytes, ASCII and FFh (every string number)",
    "c07_strings": "strings sections of at most 6 bytes, ASCII and FFh",
    "c14_configuration_options": "strings sections of at most 6 bytes",
    "c14_options_count": "at most 300 strings",
    "c16_significants": "8-bit fields, every layout; two consecutive calls from every position (inductive step)",
    "c16_reserved": "8-bit fields, every layout over 4 entry kinds; two consecutive calls from every position (inductive step)",
    "c16_collect": "three positions",
    "c16_back": "8-bit fields",
    "c19_contained_elements": "8 bytes of records behind the fixed part",
    "c19_peer_devices": "3 groups",
    "c19_slot_peers": "3 groups",
    "c19_group_items": "4 members",
    "c19_descriptors": "8 bytes of descriptors",
    "c19_languages": "0 to 10, 254 and 255 strings",
}

DECODER = ("Each decoder is proved against a full functional contract for every SMBIOS version, every formatted section of 0 to "
           "251 bytes (every stated length the byte can hold), every handle and every number of strings: presence and value of "
           "every field, and which error otherwise. Loop-free code: no bound. ")


def p(harnesses, functions, how, level="proof", **kw):
    return dict(harnesses=harnesses, functions=functions, how=how, level=level, **kw)


PROPS = {
    "C01": p(["c04_next_raw", "c04_nulnul_loop", "c04_find_nulnul", "c04_structures", "c06_dispatch", "c05_error_ends", "c02_find_signature",
              "c02_search_none", "c02_search_v2", "c02_search_v3", "c07_find_string", "c07_strings"] + C08 + D09 + D10 + D11 + D12
             + [d for d in D13 if not d.endswith("flags")] + [d for d in D14 if d != "c14_configuration_options"] + C19,
             ["Structures::next_raw", "Structures::next", "find_nulnul", "EntryPoint::structures", "EntryPoint::search",
              "find_signature", S_FIND, "RawStructure::get*", "StructureStrings::next", "all 19 decoders (try_from)",
              "the sub-record iterators"],
             "The safety obligations (panics, arithmetic overflow, bounds, pointer validity, alignment of raw reads) of every "
             "function reached by pulling a structure, with each formatted section and buffer in an object of exactly its size "
             "so that any read outside it is a failed obligation.",
             thorough=["c14_configuration_options", "c03_checksum_v2", "c03_checksum_v3"],
             safety=True, time=560, trusted=[FIND_STRING, UTF8],
             native=["c07_sections", "c19_large", "c14_configuration_options", "c02_large", "c04_walk"], fallback=C19B,
             assumptions=["debug assertions and overflow checks on, as in the test build"]),
    "C02": p(["c02_find_signature", "c02_search_none", "c02_search_v2", "c02_search_v3"],
             ["find_signature", "EntryPoint::search"],
             "find_signature equals the specification's first 16-byte aligned anchor; search uses exactly what it finds. "
             "Bounded in the buffer length (no loop contract is available for the library's iterators used there).",
             level="other", native=["c03_search_v2", "c03_search_v3", "c02_large"]),
    "C03": p(["c03_search_v2", "c03_search_v3", "c03_sum_v2", "c03_sum_v3"],
             ["EntryPoint::search", "EntryPointV2/V3::from", "accessors of EntryPoint"],
             "search at a given anchor: every outcome and every field for every content and stated length of the entry point "
             "(buffers up to 257 bytes; the checksum by induction over its additions), and once more without the induction for "
             "44 bytes.", level="other", native=["c02_search_v2", "c02_search_v3", "c02_large"],
             fallback=["c03_checksum_v2", "c03_checksum_v3"],
             trusted=["find_signature is replaced by its contract (C02)",
                      "in c03_sum_* the contract of u8::wrapping_add stands for it (the sum of one more byte)"]),
    "C04": p(["c04_next_raw", "c04_nulnul_loop", "c04_find_nulnul", "c04_structures"],
             ["Structures::next_raw", "find_nulnul", "EntryPoint::structures"],
             "next_raw is proved from every iterator state, for every buffer up to 16 GiB, against the contract of find_nulnul; "
             "find_nulnul is proved for every buffer up to 16 GiB by its loop invariant (no double NUL at an arbitrary index is "
             "passed by), and again without the invariant for 24 bytes.",
             native=["c04_walk"],
             trusted=["find_nulnul's contract stands for it in next_raw; it is proved separately (c04_nulnul_loop)",
                      "Kani's rewriting of the annotated for loop over a range into a while loop"]),
    "C05": p(["c04_next_raw", "c05_error_ends", "c06_dispatch"],
             ["Structures::next_raw", "Structures::next"],
             "Variant: next_raw advances by at least 6 bytes or leaves the iterator at an end; next passes errors on and moves "
             "to the end. Both proved from every iterator state.", native=["c04_walk"],
             trusted=["next_raw's contract stands for it in Structures::next (C04)"]),
    "C06": p(C06, ["Structures::next"],
             "next calls exactly the decoder of the type byte with exactly the raw structure, and wraps its result in the "
             "variant of that type; all other types become Other with the raw structure unchanged.",
             native=["c05_error_ends", "c04_walk"],
             trusted=["the decoders and next_raw are replaced by contracts (C04, C09 to C14) that record what they were given"]),
    "C07": p(["c07_find_string", "c07_strings"], [S_FIND, "StructureStrings::next", "OemStrings::try_from"],
             "find_string and StructureStrings against the specification's reading of a strings section.",
             level="other", native=["c07_sections", "c04_walk"], trusted=[UTF8]),
    "C08": p(C08, ["RawStructure::get::<u8/u16/u32/u64/u128>", "RawStructure::get_slice", "RawStructure::get_string"],
             "Every offset, every formatted section of 0 to 251 bytes and every content.", trusted=[FIND_STRING]),
    "C09": p(D09, ["Bios::try_from", "System::try_from", "BiosLanguage::try_from"], DECODER, trusted=[FIND_STRING]),
    "C10": p(D10, ["Processor::try_from", "Cache::try_from"], DECODER, trusted=[FIND_STRING]),
    "C11": p(D11, ["BaseBoard::try_from", "Enclosure::try_from", "ContainedElements::new", "PortConnector::try_from"], DECODER,
             trusted=[FIND_STRING]),
    "C12": p(D12, ["SystemSlots::try_from"], DECODER, trusted=[FIND_STRING]),
    "C13": p(D13, ["PhysicalMemoryArray::try_from", "MemoryDevice::try_from", "MemoryError32::try_from",
                   "MemoryArrayMappedAddress::try_from", "MemoryDeviceMappedAddress::try_from"], DECODER, trusted=[FIND_STRING]),
    "C14": p(D14 + ["c14_options_count"], ["BuiltInPointingDevice::try_from", "PortableBattery::try_from", "SystemEventLog::try_from",
                   "GroupAssociations::try_from", "SystemConfigurationOptions::try_from"],
             DECODER + "System configuration options: every count against up to 300 strings.",
             native=["c14_options_large"],
             trusted=[FIND_STRING, UTF8, "in c14_options_count the contract of StructureStrings::next stands for it (C07)"]),
    "C15": p(C15, ["every From<u8>/From<u16> of an enumeration"],
             "Each conversion equals the frozen specification table for every value of its input type."),
    "C16": p(C16, ["bitfield::Iter::next", "Significants::next", "Reserved::next", "FromIterator<Position> for u8..u128, usize"],
             "Iter::next from every position, for every value of all five widths; the two views by an inductive step over every "
             "layout of an 8-bit field.", native=["c16_wide", "c16_layouts"]),
    "C17": p(C17, ["From/Into of EventLogType, VariableDataFormatType, EventLogTypeDescriptor, DeviceAndFunctionNumber, Device",
                   "AccessMethod::new", "AccessMethod::address"], "Every value of the raw bytes."),
    "C18": p(C18, ["CacheSize", "CacheSize2", "CacheConfiguration", "RomSize", "DesignCapacity", "Voltage", "SlotPitch"],
             "Every value of the inputs."),
    "C19": p(C19, ["ContainedElements::next", "PeerDevices::next", "GroupItems::next",
                   "SupportedEventLogTypeDescriptors::next", "InstallableLanguages::next"],
             "One step of each iterator from the state after any number of records, for every section of up to 251 bytes, every "
             "count and record length and every number of strings: the record or the end, and the state after it. By induction "
             "every call sequence yields exactly the records present, in order. No bound.",
             native=["c19_large"], fallback=C19B,
             trusted=[FIND_STRING, "the state after n records is that of nth(n - 1) on the standard library's chunk iterator"]),
}
