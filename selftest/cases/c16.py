E="scripts/extract_dl1.py"
BUG("c16-skip-and", "C16", E, "return waveforms.stale or waveforms.missing_packets", "return waveforms.stale and waveforms.missing_packets")
BUG("c16-skip-stale", "C16", E, "return waveforms.stale or waveforms.missing_packets", "return waveforms.stale")
BUG("c16-nocount", "C16", E, "                    n_events_skipped += 1\n", "")
BUG("c16-store-anyway", "C16", E, "                    n_events_skipped += 1\n                    continue\n", "                    n_events_skipped += 1\n")
BUG("c16-break", "C16", E, "                    n_events_skipped += 1\n                    continue\n", "                    n_events_skipped += 1\n                    break\n")
BUG("c16-twice", "C16", E, "                if reader.is_mc:\n                    writer.append(\n                        pd.DataFrame([reader.mc])", "                if reader.is_mc:\n                    writer.append(pd.DataFrame(dl1))\n                    writer.append(\n                        pd.DataFrame([reader.mc])")
BUG("c16-start", "C16", E, "                if start_time is None:\n                    start_time = waveforms.t_cpu\n", "                start_time = start_time or end_time\n", "                end_time = waveforms.t_cpu\n", "                end_time = waveforms.t_cpu if end_time is None else end_time\n")
BUG("c16-end-early", "C16", E, "                if dl1_extractor.skip_event(waveforms):\n", "                end_time = waveforms.t_cpu\n                if dl1_extractor.skip_event(waveforms):\n", "\n                end_time = waveforms.t_cpu\n                if start", "\n                if start")
BUG("c16-start-early", "C16", E, "                if dl1_extractor.skip_event(waveforms):\n", "                if start_time is None:\n                    start_time = waveforms.t_cpu\n                if dl1_extractor.skip_event(waveforms):\n")
BUG("c16-nevents", "C16", E, "meta['n_events'] = n_events_processed", "meta['n_events'] = reader.n_events")
BUG("c16-swap", "C16", E, "meta['n_skipped'] = n_events_skipped", "meta['n_skipped'] = n_events_processed")
BUG("c16-try", "C16", E, "                dl1 = dl1_extractor(waveforms)\n", "                try:\n                    dl1 = dl1_extractor(waveforms)\n                except ValueError:\n                    continue\n")
BUG("c16-guard", "C16", E, "        if os.path.realpath(output_path) == os.path.realpath(reader.path):\n", "        if output_path == reader.path:\n")
BUG("c16-guard-mc", "C16", E, "        if os.path.realpath(output_path) == os.path.realpath(reader.path):\n", "        if not reader.is_mc and os.path.realpath(output_path) == os.path.realpath(reader.path):\n")
BUG("c16-guard-none", "C16", E, "            if reader.is_mc:\n                output_path = reader.path.replace('.simtel.gz', '_dl1.h5')\n        if os", "            if reader.is_mc:\n                output_path = reader.path.replace('.simtel.gz', '_dl1.h5')\n        elif os")
BUG("c16-multi", "C16", E, "if n_files > 1 and args.output_path:", "if n_files > 2 and args.output_path:")
BUG("c16-multi2", "C16", E, "        parser.error(\"--output", "        print(\"--output")
BUG("c16-first", "C16", E, "in tqdm(reader, total=reader.n_events, desc=desc):", "in tqdm(reader[:1000], total=reader.n_events, desc=desc):")
BUG("c16-filter", "C16", E, "pd.DataFrame(dl1), key='data'", "pd.DataFrame(dl1).dropna(), key='data'")
BUG("c16-sharedextr", "C16", E, "    for i_path, input_path in enumerate(input_paths):\n", "    dl1_extractor = DL1Extractor(WaveformReader.from_path(input_paths[0], args.max_events), args.config_path)\n    for i_path, input_path in enumerate(input_paths):\n", "        dl1_extractor = DL1Extractor(reader, args.config_path)\n        DL1W", "        DL1W")
OK("ok-c16-else", "", E, """                if dl1_extractor.skip_event(waveforms):
                    n_events_skipped += 1
                    continue

                end_time = waveforms.t_cpu
                if start_time is None:
                    start_time = waveforms.t_cpu
""", """                skip = dl1_extractor.skip_event(waveforms)
                if skip:
                    n_events_skipped = n_events_skipped + 1
                    continue
                if start_time is None:
                    start_time = waveforms.t_cpu
                end_time = waveforms.t_cpu
""")
OK("ok-c16-meta", "", E, """            meta = dl1_extractor.metadata
            meta['n_events'] = n_events_processed
            meta['n_skipped'] = n_events_skipped
            meta['start_time'] = start_time
            meta['end_time'] = end_time
""", """            meta = dict(
                dl1_extractor.metadata,
                n_events=n_events_processed, n_skipped=n_events_skipped,
                start_time=start_time, end_time=end_time,
            )
""")
OK("ok-c16-path", "", E, """        if not output_path:
            output_path = reader.path.replace('_r1', '_dl1').replace('.tio',
                                                                     '.h5')
            if reader.is_mc:
                output_path = reader.path.replace('.simtel.gz', '_dl1.h5')
        if os.path.realpath(output_path) == os.path.realpath(reader.path):
""", """        input_path = reader.path
        if not output_path and reader.is_mc:
            output_path = input_path.replace('.simtel.gz', '_dl1.h5')
        elif not output_path:
            output_path = input_path.replace('_r1', '_dl1').replace('.tio', '.h5')
        if os.path.realpath(input_path) == os.path.realpath(output_path):
""")
OK("ok-c16-skip", "", E, "return waveforms.stale or waveforms.missing_packets", "return bool(waveforms.missing_packets or waveforms.stale)")
OK("ok-c16-main", "", E, "    for i_path, input_path in enumerate(input_paths):\n        print(\"PROGRESS: Reducing file {}/{}\".format(i_path + 1, n_files))\n", "    for i_path, input_path in enumerate(input_paths, start=1):\n        print(f\"PROGRESS: Reducing file {i_path}/{n_files}\")\n")
