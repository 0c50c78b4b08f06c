CHECKS = {
    "C01": ("cbuf", "c01"),
    "C02": ("spsc", "c02"),
    "C03": ("queue", "c03"),
    "C04": ("stack", "c04"),
    "C05": ("listx", "c05"),
    "C06": ("eventlog", "c06"),
    "C07": ("wear", "c07"),
    "C08": ("wear", "c08"),
    "C09": ("debounce", "c09"),
    "C10": ("debounce", "c10"),
    "C11": ("keypad", "c11"),
    "C12": ("timers", "c12"),
    "C13": ("timers", "c13"),
    "C14": ("timers", "c14"),
    "C15": ("watcher", "c15"),
    "C16": ("param", "c16"),
    "C17": ("param", "c17"),
    "C18": ("param", "c18"),
    "C19": ("pid", "c19"),
    "C20": ("sched", "c20"),
    "C21": ("sched", "c21"),
    "C22": ("pman", "c22"),
    "C23": ("ser", "c23"),
    "C24": ("crc", "c24"),
    "C25": ("sm", "c25"),
    "C26": ("su", "c26"),
    "C27": ("maybe", "c27"),
    "C28": ("indep", "c28"),
}
NOTES = {}
NOT_APPLICABLE = {}
