"""What each check runs and the least it must have observed."""

CHECKS = {
    'P01': dict(
        scale=6, run='c_rules:p01', level='exploration',
        rule='random rules dicts over 10 keys, 4 OSs, all levels and '
             'spellings; non-trivial: some query has entries on more than '
             'one level',
        require=dict(lookups=5000, lookups_over_several_levels=500,
                     lookups_with_default_installer=500,
                     lookups_from_cache=30)),
    'P02': dict(
        run='c_rules:p02', level='exploration',
        rule='random sets of source files listing up to 12 rules files; '
             'non-trivial: several sources have a rule for the same key, OS '
             'and installer',
        require=dict(lookups=1000, contested_lookups=200,
                     lookups_from_cache=40)),
    'P03': dict(
        scale=6, run='c_rules:p03', level='exploration',
        rule='random lists of up to 4 rules dicts and sets of supported OSs, '
             'all queries; non-trivial: some query is answered by several',
        require=dict(queries=5000, contested_queries=1000)),
    'P04': dict(
        scale=2, run='c_rules:p04', level='exploration',
        rule='random shorthand spellings of random rules as data, YAML and '
             'YAML with aliases; non-trivial: the spelling differs from the '
             'expanded form',
        require=dict(texts_with_aliases=50, expanded_data=50, expanded_yaml=50,
                     loaded_files=10)),
    'P05': dict(
        run='c_rules:p05', level='exploration',
        rule='random rules, mostly with one or two random changes of type, '
             'name or structure at a random place; non-trivial: changed',
        require=dict(accepted=200, rejected=200, errors_checked_for_entry=100,
                     default_installer_disallowed=50)),
    'P06': dict(
        run='c_rules:p06', level='exploration',
        rule='random rules with repeated entries, compacted, dumped, loaded '
             'and queried; non-trivial: compacting changed the text',
        require=dict(queries=10000, files_invalid=5, files_compacted=10)),
    'P07': dict(
        scale=5, run='c_rules:p07', level='exploration',
        rule='random rules of one and several sources on random OS tuples; '
             'non-trivial: distinct rules (one source), several sources',
        require=dict(keys_listed=1000, keys_not_listed=1000, lookups=500)),
    'P08': dict(
        scale=8, run='c_cache:p08', level='exploration',
        rule='random contents of the sources directory, listed in random '
             'order; non-trivial: several files are used',
        require=dict(sources=200, files_ignored=100, malformed_files=20,
                     wrong_files=10, default_source_checks=6)),
    'P09': dict(
        scale=1.5, run='c_cache:p09', level='exploration',
        rule='random histories of edits, relisting, updates and reads over 6 '
             'similarly named sources; non-trivial: several updates',
        require=dict(updates=50, sources_read=200, offline_lookups=50)),
    'P10': dict(
        scale=2, run='c_cache:p10', level='exploration',
        rule='every loaded source is confronted with bad rules and bad cache '
             'files; non-trivial: distinct kind, length and rules',
        require=dict(bad_source_loads=50, bad_cache_loads=200,
                     verified_lookups=20)),
    'P11': dict(
        run='c_cache:p11', level='fault_enumeration', shim=True, shards=4,
        exhaustive=True,
        rule='every file operation of an update below the cache directory, '
             'found by a fault-free run, is a point for a kill (in the '
             'middle of writes) and for I/O errors of several kinds',
        require=dict(killed=20, errors_injected=40, recoveries=20,
                     fault_at_write=10, fault_at_open=4)),
    'P12': dict(
        scale=3, run='c_cache:p12', level='exploration',
        rule='random subsets of failing sources with random failures; '
             'non-trivial: some but not all sources fail',
        require=dict(failing_sources=50, fine_sources=50, dry_runs=50,
                     raising_loads=30)),
    'P13': dict(
        run='c_cache:p13', level='exploration', shim=True, shards=2,
        quick_shards=2,
        rule='random numbers of updating and reading processes with random '
             'delays at file operations; non-trivial: readers saw more than '
             'two versions',
        require=dict(reads=200, versions_seen=10, histories=3)),
    'P14': dict(
        run='c_net:p14', quick_shards=2, level='exploration',
        rule='random scripts of responses of a loopback server, random '
             'numbers of retries; non-trivial: something is retried or fails',
        require=dict(requests=500, retries=200, timeouts=20, successes=80,
                     failures=80, successes_after_retries=30, redirects=10,
                     bad_urls=100, connect_timeouts=2)),
    'P15': dict(
        scale=2, run='c_install:p15', level='exploration',
        rule='random sources, installers, pins and lists of keys; '
             'non-trivial: some keys resolve and some do not',
        require=dict(keys_resolved=500, keys_error=500, undefined_keys=300,
                     all_keys=50, requests_with_duplicates=100,
                     failed_lookups=50)),
    'P16': dict(
        scale=2, run='c_install:p16', level='exploration',
        rule='random sources, core and additional installers, pins; '
             'non-trivial: a key has rules for several installers',
        require=dict(contested_keys=200, pinned_keys=100, resolved_keys=300,
                     keys_without_installer=50, additional_installers=30,
                     lower_core_installers=50)),
    'P17': dict(
        scale=2, run='c_install:p17', level='exploration',
        rule='random requests, states and failures of an imagined machine '
             'whose package managers are real logging processes; '
             'non-trivial: nothing may run, or an installer is broken',
        require=dict(processes_observed=300, must_not_run_unresolved=20,
                     must_not_run_simulate=20, must_not_run_nothing=5,
                     must_not_run_prerequisites=15, fine_packages=100,
                     fine_beside_failures=40, some_installed_already=30)),
    'P18': dict(
        scale=2, run='c_install:p18', level='exploration',
        rule='as P17, with failing commands; the log of the processes is '
             'compared with the plan; non-trivial: several commands',
        require=dict(processes_observed=300, simulated=40,
                     traces_with_failures=30, traces_continued=15,
                     traces_stopped=15, traces_of_several_installers=30,
                     packages_grouped=100)),
    'P19': dict(
        run='c_install:p19', level='exploration',
        rule='as P17, with failures of every kind at every step; '
             'non-trivial: there is a failure to report',
        require=dict(processes_observed=200, failures_command=30,
                     failures_missing=3, failures_filter=5,
                     failures_compose=5, failures_verify=3,
                     failures_prerequisites=10, failures_resolve=30,
                     without_failures=40, cli_installs=40, cli_failing=10)),
    'P20': dict(
        scale=10, run='c_installers:p20', level='exploration',
        rule='random installer rules for the built-in and for custom '
             'installers with typed options; non-trivial: several packages, '
             'options or a defect',
        require=dict(resolutions=2000, invalid_rules=300,
                     rules_with_unknown_options=300, options_compared=200)),
    'P21': dict(
        scale=8, run='c_installers:p21', level='exploration',
        rule='random packages, options and users for all built-in and some '
             'custom installers; non-trivial: several packages',
        require=dict(commands=2000, privileged=300, own_commands=400,
                     missing_queries=100)),
    'P22': dict(
        scale=8, run='c_installers:p22', level='exploration',
        rule='random states and abilities of package managers that are real '
             'executables; non-trivial: missing or outdated',
        require=dict(missing_reported=100, manager_installs=50,
                     manager_updates=50, outdated_warnings=100,
                     builtin_managers=40)),
    'P23': dict(
        scale=6, run='c_installers:p23', level='exploration',
        rule='random plugins, OS definitions and histories of configurations;'
             ' non-trivial: several installers are in use',
        require=dict(contexts=500, core_installers=500,
                     additional_installers=200, missing_plugins=200,
                     repeated_setups=50, builtin_contexts=40)),
    'P24': dict(
        scale=6, run='c_os:p24', level='exploration',
        rule='random derivation hierarchies, detecting and disabled plugins, '
             'in several orders; non-trivial: several OSs detect themselves',
        require=dict(unique=500, ambiguous=300, nothing_detected=100,
                     derived_detected=100)),
    'P25': dict(
        scale=8, run='c_os:p25', level='exploration',
        rule='random histories of overrides over built-in and stub OSs; '
             'non-trivial: distinct overrides as text',
        require=dict(overrides=300, overrides_rejected=300,
                     kept_after_error=100, versions_detected=30,
                     comparisons=2000, overrides_as_text=100,
                     os_options_set=200, os_options_rejected=100)),
    'P26': dict(
        scale=3, run='c_config:p26', level='exploration',
        rule='random values of options of xylem and of random descriptions '
             'in files, arguments and dictionaries; non-trivial: some option '
             'is set in several places',
        require=dict(options=3000, options_set_in_several_places=300,
                     layered=80, local=40, descriptions=40, dicts=40,
                     printed=10)),
    'P27': dict(
        scale=6, run='c_config:p27', level='exploration',
        rule='random types and values, right, wrong and arbitrary, as data '
             'and text; non-trivial: nested types',
        require=dict(accepted=800, rejected=150, accepted_arguments=500,
                     rejected_arguments=100, arbitrary_arguments=1000,
                     wrong_types=50, bad_files=50, bad_arguments=30)),
    'P28': dict(
        scale=2, run='c_config:p28', level='exploration',
        rule='random arguments, environments, configuration files and '
             'spellings of paths; non-trivial: several places or explicit '
             'directories are given',
        require=dict(with_directory=100, with_prefix=100, user_sources=40,
                     several_places_given=150, explicit=150, updates=8)),
    'P29': dict(
        scale=2.5, run='c_config:p29', level='exploration',
        rule='random sets of configurations made from shared inputs, changed '
             'at random; non-trivial: more than two configurations',
        require=dict(configurations=1500, changes=800, changed_in_place=30,
                     used=50)),
    'P30': dict(
        scale=4, run='c_cli:p30', level='exploration',
        rule='random distributions of sound, broken, duplicate and disabled '
             'plugins; non-trivial: plugins of several conditions',
        require=dict(loaded=500, broken=400, duplicates=100, disabled=100,
                     builtin=20)),
    'P31': dict(
        run='c_cli:p31', level='exploration',
        rule='random rules, options at random positions and failures, '
             'against the library; non-trivial: something fails',
        require=dict(lookups=100, resolves=80, installs=80,
                     installs_executing=15, errors_shown=50,
                     options_before=200, options_after=200, usage_errors=25,
                     configuration_errors=25, processes=30,
                     broken_environments=80, random_passed=80,
                     random_failed=100)),
    'P32': dict(
        scale=20, run='c_text:p32', level='exploration',
        rule='random texts with annotations, controls and any characters, '
             'levels, streams and encodings; non-trivial: not plain ASCII',
        require=dict(printed_with_color=1000, printed_without_color=1000,
                     encoded=500, escaped=3000, annotated=3000, hidden=300,
                     converted=3000)),
    'P33': dict(
        scale=1.5, run='c_text:p33', level='exploration',
        rule='random data and random YAML text; non-trivial: collections',
        require=dict(round_trips=1500, lists=500, shared_parts=300,
                     arbitrary_loaded=800, arbitrary_rejected=800)),
    'P34': dict(
        scale=6, run='c_text:p34', level='exploration',
        rule='random chains of up to 7 errors; non-trivial: chained',
        require=dict(chained=1000, with_tracebacks=700,
                     mode_unchained=300)),
    'P35': dict(
        scale=20, run='c_text:p35', level='exploration',
        rule='random nesting of the helpers, uses and exceptions; '
             'non-trivial: nested',
        require=dict(scopes=1000, exceptions=300, deeply_nested=50,
                     temporary_directories=300,
                     files_in_temporary_directories=50)),
    'P36': dict(
        run='c_det:p36', quick_shards=2, level='exploration',
        rule='random sources, configurations and requests, each run in '
             'several processes with other hash seeds and directory orders; '
             'non-trivial: the sources are sound',
        require=dict(processes=40, comparisons=2000, hash_seeds=30,
                     directory_listings=100, updates_with_errors=1)),
    'P37': dict(
        scale=4, run='c_misc:p37', level='exploration',
        rule='random arguments for recording programs with random output to '
             'both streams, exit codes and signals, and things that cannot '
             'be executed; non-trivial: large output, standard error or '
             'failure',
        require=dict(calls=200, large_outputs=60, missing=100,
                     helpers=60)),
    'P38': dict(
        scale=6, run='c_misc:p38', level='exploration',
        rule='random help texts with paragraphs, hard line breaks and raw '
             'paragraphs in terminals of random width, and help of the tool',
        require=dict(texts=1000, raw=150, descriptions=100, tool_helps=40)),
    'P39': dict(
        run='c_misc:p39', level='exploration', shim=True,
        rule='random release files and commands of 14 kinds of systems, seen '
             'through a preloaded redirection, and random registrations of '
             'detectors; non-trivial: a known system',
        require=dict(systems=150, plugins_asked=70, plugins_detected=20,
                     lookups=10, models=30, contested=5, overrides=10,
                     asked_first=20, asked_before=20)),
    'P40': dict(
        run='c_int:p40', level='exploration', shim=True,
        rule='random updates, queries, installations, compactions and '
             'downloads, each interrupted at random executed lines (evenly '
             'over the code), file operations, commands and installer '
             'operations, or by signals at random times; non-trivial: all',
        require=dict(interruptions=300, at_lines=150, at_operations=50,
                     updates=16, installs=16, compactions=8, in_commands=15,
                     in_downloads=20, kept_files=50, new_files=50,
                     failing_writes=30, processes=8, detections=8,
                     in_detection=4)),
    'P41': dict(
        run='c_left:p41', level='exploration', shim=True,
        rule='random operations of 12 kinds with random failures and '
             'injected I/O errors; non-trivial: the operation fails',
        require=dict(operations=700, failing=150, io_errors=20)),
    'P42': dict(
        run='c_cmd:p42', level='exploration',
        rule='random distributions with random commands, a third of them '
             'with one of 11 defects; non-trivial: some are invalid',
        require=dict(runs=250, invalid=80, builtin=200, helps=200,
                     duplicates=10, shadowed=20)),
    'P43': dict(
        scale=2, run='c_api:p43', level='exploration',
        rule='random sources, configurations and calls, each repeated in '
             'random ways of passing the configuration, contexts and '
             'database while everything else points elsewhere; non-trivial: '
             'a context or database is passed',
        require=dict(comparisons=900, passed_sc=300, passed_ic=200,
                     passed_db=120, config_dict=300, config_global=300,
                     wrong_types=300)),
    'P44': dict(
        scale=2.5, run='c_spec:p44', level='exploration',
        rule='random histories of updates, lookups, edits and failures with '
             'random spec plugins of other distributions mixed with the '
             'built-in one; non-trivial: a source of such a plugin is used',
        require=dict(loads=100, failed_loads=10, answers=50, other_spec=3,
                     mixed_lookups=10, refused_lookups=20, duplicates=5,
                     disabled_used=10, outdated_asked=20,
                     outdated_missing=10)),
    'P45': dict(
        scale=1.5, run='c_sys:p45', level='exploration',
        rule='random requests on random systems, each run twice from the '
             'same state, without and with random diagnostic options; '
             'non-trivial: the request succeeds',
        require=dict(runs=300, verbose=100, debug=100, colorless=100,
                     failing=50, executing=30, saying_more=100,
                     tracebacks=10)),
    'P46': dict(
        scale=1.7, run='c_sys:p46', level='exploration', shim=True,
        rule='random histories of edits, updates (also failing, killed and '
             'concurrent ones), queries and installations, with each '
             'request repeated on a new system in the same state; '
             'non-trivial: data of all sources is there',
        require=dict(compared=120, executing=20, kills=5, failed_sources=8,
                     cache_states=60, again=3, without_data=5)),
    'P47': dict(
        scale=6, run='c_desc:p47', level='exploration',
        rule='random sequences of options added to a description, a part of '
             'them in conflict with those added before; non-trivial: the '
             'option is in conflict',
        require=dict(accepted=1000, refused_name=100, refused_group=20,
                     refused_argument=50, configurations=500,
                     set_values=500)),
    'P48': dict(
        scale=1.5, run='c_sys:p48', level='exploration',
        rule='random requests, right and wrong ones, each as subcommand and '
             'as program of its own from the same state; non-trivial: it '
             'succeeds',
        require=dict(runs=120, runs_update=20, runs_install=10,
                     runs_lookup=10, runs_resolve=10,
                     runs__compact_rules_file=10, statuses_0=40,
                     statuses_1=10, statuses_2=5, executing=5,
                     broken_files=5)),
    'P49': dict(
        scale=3,
        run='c_exc:p49', level='exploration',
        rule='random chains of errors shown by the handler, and processes of '
             'the tool and of other programs that fail, with and without '
             'terminals and debugging; non-trivial: an unexpected error',
        require=dict(handled=2000, handled_coloured=500, handled_chained=500,
                     started=200, processes=40, process_started=2,
                     process_not_started=10, process_unexpected=20,
                     process_terminal=15, libraries=8)),
    'P50': dict(
        scale=1,
        run='c_enc:p50', level='exploration',
        rule='random systems with non-ASCII names and texts, requests run '
             'with files, terminals and closed output in many character '
             'sets and locales; non-trivial: characters are replaced, or '
             'the output is no file',
        require=dict(requests=300, replacing=50, failing=30, executing=20,
                     runs_terminal=5, runs_closed=2, locale_runs=5,
                     requests_update=30, requests_install=30,
                     requests_lookup=10, requests_resolve=20,
                     requests__compact_rules_file=10, helps=10)),
}

NOT_APPLICABLE = {}
