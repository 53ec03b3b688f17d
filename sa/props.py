from . import (rules_roots, rules_scan, rules_sync, rules_locks, rules_stale, rules_lists, rules_barrier, rules_push, rules_pools,
               rules_alloc, rules_gembc, rules_promo, rules_full, rules_pms, rules_final, rules_backend, rules_descr, rules_types, rules_thread,
               rules_config, rules_map)
PROPS = {
    'C01': rules_stale.C01,
    'C02': rules_push.C02,
    'C03': rules_barrier.C03,
    'C04': rules_alloc.C04,
    'C05': rules_types.C05,
    'C06': rules_descr.C06,
    'C07': rules_roots.C07,
    'C08': rules_scan.C08,
    'C09': rules_gembc.C09,
    'C10': rules_promo.C10,
    'C11': rules_full.C11,
    'C12': rules_pools.C12,
    'C13': rules_pms.C13,
    'C14': rules_sync.C14,
    'C15': rules_sync.C15,
    'C16': rules_sync.C16,
    'C17': rules_locks.C17,
    'C18': rules_thread.C18,
    'C19': rules_final.C19,
    'C20': rules_lists.C20,
    'C21': rules_map.C21,
    'C22': rules_backend.C22,
    'C23': rules_config.C23,
}
