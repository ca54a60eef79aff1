"""Which functions carry each property.  `fns`: the functions whose contracts state it (verified in every fork where they
exist, together with the contracted functions they call).  Tests are tagged with the property in the contract files."""
PROPS = {
    "C01": {"fns": ["compute_epoch_at_slot", "compute_start_slot_at_epoch", "get_current_epoch", "get_previous_epoch"], "modules": {"clock": None}},
    "C02": {"fns": ["compute_fork_data_root", "compute_fork_digest", "compute_domain", "get_domain", "compute_signing_root", "verify_signed_data", "sign_with_domain", "compute_builder_domain"], "modules": {"domains": None, "context": None, "forkid": None}},
    "C25": {"fns": [], "modules": {"serde": None}},
    "C27": {"fns": [], "modules": {"constants": None}},
    "C29": {"fns": [], "modules": {"mnemonic": None, "keys": None, "keystores": None}},
    "C24": {"fns": [], "modules": {"blobs": None}},
    "C32": {"fns": ["process_deposit"], "modules": {"sidecar": None}},
    "C34": {"fns": [], "modules": {"kzg": None}},
    "C33": {"fns": [], "modules": {"bls": None}},
    "C35": {"fns": [], "modules": {"executor": None}},
    "C28": {"fns": [], "modules": {"generator": None}, "static": ["generator"], "level": "exploration",
            "technique": "contract-based deductive verification (Verus) of the fork order and of Module::merge; the rest of the generator (syn syntax trees, outside the verifier's reach) by a bounded stand-in: the real generator run on recorded and random source trees against an independent resolution rule",
            "note": "Proved: the declaration order of the forks, Module::merge. Exhaustive: all 36 fork pairs. Bounded, not proved: the generator's output on the recorded sources (63 files, 1958 entries, equal to the repository's committed modules) and on random source trees (60 quick, 600 thorough). Trusted: syn, prettyplease, the independent rule in tools/specgen.py."},
    "C03": {"fns": ["compute_shuffled_index", "compute_shuffled_indices"]},
    "C04": {"fns": ["get_committee_count_per_slot", "compute_committee", "get_beacon_committee", "sample_proposer_index", "compute_proposer_index",
                    "get_beacon_proposer_index", "get_next_sync_committee_indices"]},
    "C05": {"fns": ["is_active_validator", "is_eligible_for_activation_queue", "is_eligible_for_activation", "is_slashable_validator",
                    "is_slashable_attestation_data", "get_active_validator_indices"]},
    "C06": {"fns": ["get_block_root_at_slot", "get_block_root", "get_randao_mix", "get_seed"]},
    "C07": {"fns": ["increase_balance", "decrease_balance", "get_total_balance", "get_total_active_balance"]},
    "C08": {"fns": ["get_validator_churn_limit", "initiate_validator_exit", "compute_activation_exit_epoch", "get_balance_churn_limit",
                    "get_activation_exit_churn_limit", "compute_exit_epoch_and_update_churn"]},
    "C09": {"fns": ["slash_validator"]},
    "C10": {"fns": ["weigh_justification_and_finalization", "process_justification_and_finalization", "get_unslashed_participating_indices", "has_flag",
                    "get_matching_source_attestations", "get_matching_target_attestations", "get_attesting_balance", "get_unslashed_attesting_indices"]},
    "C11": {"fns": ["get_eligible_validator_indices", "get_finality_delay", "is_in_inactivity_leak", "get_base_reward", "get_base_reward_per_increment", "get_flag_index_deltas",
                    "get_inactivity_penalty_deltas", "process_rewards_and_penalties", "process_inactivity_updates", "get_proposer_reward", "get_attestation_component_deltas",
                    "get_source_deltas", "get_target_deltas", "get_head_deltas", "get_inclusion_delay_deltas", "get_attestation_deltas"]},
    "C12": {"fns": ["process_registry_updates", "get_validator_activation_churn_limit"]},
    "C22": {"modules": {"bls": None}, "fns": ["get_next_sync_committee", "process_sync_committee_updates", "process_sync_aggregate", "get_next_sync_committee_indices"]},
    "C23": {"fns": ["get_balance_churn_limit", "get_activation_exit_churn_limit", "get_consolidation_churn_limit", "compute_exit_epoch_and_update_churn",
                    "compute_consolidation_epoch_and_update_churn", "has_eth1_withdrawal_credential", "has_compounding_withdrawal_credential", "is_compounding_withdrawal_credential", "has_execution_withdrawal_credential",
                    "get_active_balance", "queue_excess_active_balance", "switch_to_compounding_validator", "get_pending_balance_to_withdraw", "process_pending_balance_deposits",
                    "process_pending_consolidations", "process_consolidation", "process_execution_layer_withdrawal_request"], "forks": "electra"},
    "C14": {"fns": ["xor", "process_block_header", "process_randao", "process_eth1_data"]},
    "C15": {"modules": {"bls": None}, "fns": ["is_slashable_attestation_data", "is_valid_indexed_attestation", "get_indexed_attestation", "get_attesting_indices", "get_committee_indices", "process_proposer_slashing", "process_attester_slashing",
                    "process_attestation", "get_attestation_participation_flag_indices", "add_flag", "slash_validator", "verify_signed_data"]},
    "C16": {"fns": ["process_voluntary_exit", "process_bls_to_execution_change", "initiate_validator_exit"]},
    "C17": {"fns": ["get_validator_from_deposit", "add_validator_to_registry", "is_valid_deposit_signature", "apply_deposit", "process_deposit", "process_deposit_receipt", "process_operations"], "modular": True, "findings": ["K16", "K09"]},
    "C19": {"fns": ["is_merge_transition_complete", "is_merge_transition_block", "is_execution_enabled", "compute_timestamp_at_slot", "kzg_commitment_to_versioned_hash", "Context::execution_engine", "process_execution_payload"], "forks": "bellatrix,capella,deneb,electra"},
    "C20": {"fns": ["process_slot", "process_slots", "process_epoch", "verify_block_signature", "process_block", "state_transition_block_in_slot", "state_transition"], "modular": True, "findings": ["K06", "K17"]},
    "C21": {"fns": ["upgrade_to_altair", "upgrade_to_bellatrix", "upgrade_to_capella", "upgrade_to_deneb", "upgrade_to_electra", "translate_participation", "queue_entire_balance_and_reset_validator",
                    "phase0__get_current_epoch", "altair__get_current_epoch", "bellatrix__get_current_epoch", "capella__get_current_epoch", "deneb__get_current_epoch"], "forks": "altair+"},
    "C26": {"fns": [], "modules": {"identifiers": None}},
    "C30": {"fns": [], "modules": {"forktypes": None}},
    "C31": {"fns": ["initialize_beacon_state_from_eth1", "is_valid_genesis_state", "get_genesis_block"]},
    "C18": {"fns": ["is_fully_withdrawable_validator", "is_partially_withdrawable_validator", "get_expected_withdrawals", "process_withdrawals", "has_eth1_withdrawal_credential", "process_execution_layer_withdrawal_request"], "forks": "capella,deneb,electra"},
    "C13": {"fns": ["process_eth1_data_reset", "process_effective_balance_updates", "process_slashings", "process_slashings_reset", "process_randao_mixes_reset",
                    "process_historical_roots_update", "process_historical_summaries_update", "process_participation_record_updates", "process_participation_flag_updates"]},
}
ALL_ASSUMPTIONS = [
    "machine integers are checked (overflow, underflow, division by zero are obligations); quantities are bounded by the well-formedness preconditions wf_ctx / wf_len / wf_exits written in contracts/00_base.v",
    "hash (SHA-256), SSZ hash_tree_root and BLS verification are uninterpreted functions: the proofs hold for any such functions",
    "ssz_rs List/Vector/Bitlist are modelled as Rust vectors with their length bounds; usize is 64 bits",
    "the extraction (tools/vlib.py, extract/) drops error payloads, logging and generic const parameters; it is mechanical and re-run on every check",
]
