"""The drivers that decide each property."""

CHECKS = {
    "P01": ["d_core"],
    "P02": ["d_range"],
    "P04": ["d_cpio"],
    "P07": ["d_asl"],
    "P08": ["d_journal"],
    "P16": ["d_safari"],
    "P15": ["d_recyclebin", "d_info2"],
    "P17": ["d_utmp"],
    "P19": ["d_fsevents"],
    "P24": ["d_wemf"],
    "P27": ["d_firefox"],
    "P32": ["d_alias", "d_bookmark"],
    "P31": ["d_detect"],
    "P25": ["d_usn"],
    "P26": ["d_job"],
    "P14": ["d_rplog", "d_rpchange"],
    "P18": ["d_tzif"],
    "P10": ["d_gzip"],
    "P20": ["d_ipp"],
    "P05": ["d_levellog"],
    "P06": ["d_leveltable"],
    "P09": ["d_chrome", "d_chromehash"],
    "P30": ["d_prefetch"],
    "P12": ["d_keychain"],
    "P13": ["d_jumpauto", "d_jumpcustom"],
    "P11": ["d_bsm"],
    "P28": ["d_report"],
    "P29": ["d_fshelper", "d_debugdefs"],
    "P21": ["d_spotlight"],
    "P33": ["d_logformat"],
    "P34": ["d_wmimap", "d_wmirepo"],
    "P35": ["d_wmiobjects"],
    "P36": ["d_wmirep"],
    "P37": ["d_nska"],
    "P38": ["d_amcache"],
    "P22": ["d_ulsupport"],
    "P23": ["d_tracev3"],
    "P03": ["d_lifecycle"],
}
