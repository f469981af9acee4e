package main

// What find.go printed: seeds whose keys (offset 7654321, user ID "n", subkeys at index 0, the
// stand-in for Argon2id) hold a rare pattern.
var rare = []struct{ seed, why string }{
	{"b933a209da3ac142a6604e56aee83e06", "fingerprint authentication first 2x0"},
	{"765609d7fed94ca12f291136ada0ac51", "fingerprint authentication first 2x255"},
	{"2e2d44d1eb7464807b438174740b9bac", "fingerprint authentication first 3x0"},
	{"d856ead76454c0640503bb03586e90fa", "fingerprint authentication first 3x255"},
	{"9144e4e23a1157569c3b391628655aa8", "fingerprint authentication last 2x0"},
	{"095927615ed117f882397d8af5f6964e", "fingerprint authentication last 2x255"},
	{"5abbe37e0718616f1b7a717158a3385c", "fingerprint encryption first 2x0"},
	{"dc87a522c207024627b97ce1f6fb0c90", "fingerprint encryption first 2x255"},
	{"354a3c8db469dd6380fe5c0350896277", "fingerprint encryption first 3x0"},
	{"f15c0f1fd5819b4e2aefa61f6da803db", "fingerprint encryption last 2x0"},
	{"832eb03d1b6884e3ca913b6d01736222", "fingerprint encryption last 2x255"},
	{"a5331209a2cc49d6f782a6ff576a453e", "fingerprint m first 2x0"},
	{"adf8229d8686fad48369095fb944458e", "fingerprint m first 2x255"},
	{"05aa98a7334d327f3b8ea68dcafd23be", "fingerprint m last 2x0"},
	{"cef8101f963cc60d7d739e4a55a24bdc", "fingerprint m last 2x255"},
	{"71b30dad0de9d32ee658723e62a4813a", "fingerprint signing first 2x0"},
	{"076acee490cd95952675fd9a77a82138", "fingerprint signing first 2x255"},
	{"1ed15dfb64229a8e13a0d548ef9637ad", "fingerprint signing last 2x0"},
	{"b88e523ad27073fa1b09361a0bf95d02", "fingerprint signing last 2x255"},
	{"c0572fd9948b7b4b471c54376e1e5dea", "hash 0 first 2x0"},
	{"562f4d41ebc499e6ef6c452849085dd4", "hash 0 first 2x255"},
	{"747885fc9a6619078492a8ede50e0c80", "hash 1 first 2x0"},
	{"bbb8870e8802937c71d0d05be6447910", "hash 1 first 2x255"},
	{"b81e5e3f29809708056ca4c2f246f4b1", "hash 2 first 2x0"},
	{"b91794feb0c03e35b6d2e2230bb7b17c", "hash 2 first 2x255"},
	{"2bb8af7ec98d9590d6611b16e3354523", "hash 3 first 2x0"},
	{"73a77b69c151fb6451ab2a4b122b3b5f", "hash 3 first 2x255"},
	{"747882a14766179bf1d1ef8cbd18c6ed", "id authentication first 2x0"},
	{"89321f6cefc3b823f71f1bf7594c992f", "id authentication first 2x255"},
	{"9144e4e23a1157569c3b391628655aa8", "id authentication last 2x0"},
	{"095927615ed117f882397d8af5f6964e", "id authentication last 2x255"},
	{"4e260636102dcc5a0cc8cd7b9faed613", "id encryption first 2x0"},
	{"8d089c86b4de94288e98901916d43487", "id encryption first 2x255"},
	{"f15c0f1fd5819b4e2aefa61f6da803db", "id encryption last 2x0"},
	{"832eb03d1b6884e3ca913b6d01736222", "id encryption last 2x255"},
	{"bed260854c85ec29839099eaec2f6502", "id m first 2x0"},
	{"9b13d916cd9408c8543ffe2087454ff2", "id m first 2x255"},
	{"b679c7f9b88210d825cd9fe6471b5394", "id m first 3x255"},
	{"05aa98a7334d327f3b8ea68dcafd23be", "id m last 2x0"},
	{"cef8101f963cc60d7d739e4a55a24bdc", "id m last 2x255"},
	{"8a05f4d547cbeb065ca8a17c687d2782", "id signing first 2x0"},
	{"5865ea38bf117931e5b67b7a973f2fbd", "id signing first 2x255"},
	{"1ed15dfb64229a8e13a0d548ef9637ad", "id signing last 2x0"},
	{"b88e523ad27073fa1b09361a0bf95d02", "id signing last 2x255"},
	{"70a41eb0f2bbb237a9acb1752991b01c", "public 0 first 2x0"},
	{"e195c813248616d6597573b28f2fb8d6", "public 0 first 2x255"},
	{"2db0921c65ddcaab364b081fadfd0671", "public 0 first 3x0"},
	{"e7153db0e0ee3df69948331e433a4e86", "public 0 last 2x0"},
	{"33c146075063df79e4eee0beed4f5f4e", "public 0 last 2x255"},
	{"6a2d50abba645a6238d20f1bd011a6a9", "public 1 first 2x0"},
	{"fb028d47d0e71c23f4f3213e8bcc5247", "public 1 first 2x255"},
	{"35c21505067a6843dd4e31a6e8c65ea8", "public 1 first 3x0"},
	{"82a5948aab79811c5011b54da9e4e226", "public 1 last 2x0"},
	{"7c9f2056197bc0d8afa63c477101d938", "public 1 last 2x255"},
	{"5cabfec3ac5ea3f26b042f6e1e43b76a", "public 1 last 3x0"},
	{"4ce886b61ee3d8059d603e50c596a9e0", "public 2 first 2x0"},
	{"88ed9a1a77b1352398afa88657a26769", "public 2 first 2x255"},
	{"8179ed264181c8d516ae3013cfdb2167", "public 2 first 3x255"},
	{"681d7258317c55bbb5ef6f6f4c935e41", "public 2 last 2x0"},
	{"a276aac611071b005bc1ee4ed1e2560f", "public 2 last 2x255"},
	{"6bb44457bebeb421c98205f5b95147ac", "public 2 last 3x0"},
	{"5564a5897fd5198649e7c6f9469e0c39", "public 3 first 2x0"},
	{"0661732fa96b2b13d33978b9df96ad89", "public 3 first 2x255"},
	{"436b7daee5a08022c3ce95c9591f6be5", "public 3 first 3x0"},
	{"8d0f8f71c35a985bd6ecbd1d36be6127", "public 3 last 2x0"},
	{"6dbe000951eb0a8f0be75b470a5187d9", "public 3 last 2x255"},
	{"816ad911218ba6f24073d5d2eb00b60a", "secret 0 first 2x0"},
	{"316589c46b60c749c6f3e8422b246c76", "secret 0 first 2x255"},
	{"cee367873564d71eb3ee4319c7780c21", "secret 0 first 3x0"},
	{"513e94721624c7475a609b7722e8f697", "secret 0 first 3x255"},
	{"3a84544da85971f80702cd4a30f61a8a", "secret 0 last 2x0"},
	{"e871004602f8b0a8818553c17311359d", "secret 0 last 2x255"},
	{"d67d1be53ee0d32b6d5a3083430870f6", "secret 0 last 3x0"},
	{"a437edf6863c96e3d660d66154d168df", "secret 0 last 3x255"},
	{"1fa1c0606fde03803c321c73ff3ab095", "secret 1 first 2x0"},
	{"6708600bdaeb066e124f3c9016a02be5", "secret 1 first 2x255"},
	{"782c3e5ee6ecdef29cdcda7c5001d4bf", "secret 1 first 3x0"},
	{"4235b33992388998a4c6026cc5bbc370", "secret 1 first 3x255"},
	{"c1ed83d4e105e28a9217fe6b893beab9", "secret 1 last 2x0"},
	{"297711920aa8f871e2ac4f5d712f7d96", "secret 1 last 2x255"},
	{"1c418eea7b84239c262d8f7230e060cc", "secret 1 last 3x0"},
	{"e6e7ba2c491f958ac59a5e2457a5d920", "secret 1 last 3x255"},
	{"ea2249fccc06c420b9a56784a4c3cf59", "secret 2 first 2x0"},
	{"bcaa958cad43ae385610e72fd39a16dc", "secret 2 first 2x255"},
	{"e66b0c9985143dd380d84f95eba7fb8a", "secret 2 first 3x0"},
	{"7e4c8c9f79c8e180c7a07aaefafc1e92", "secret 2 first 3x255"},
	{"ee87ac705946bd2e2447647ccbde8719", "secret 2 last 2x0"},
	{"0e18a606156578f01dc37f8d037d46f3", "secret 2 last 2x255"},
	{"1b4a99c42100108a6cb45e69cbc2d211", "secret 2 last 3x0"},
	{"83f25ed2b0eaaf039d9d7eea36c8bd1f", "secret 2 last 3x255"},
	{"ee3ebd293603e769493c0fb5dab7bfdf", "secret 3 first 2x0"},
	{"76029d2f917f0a64d861b60c159a7722", "secret 3 first 2x255"},
	{"dca9d3f63b8e7ece4496c71adb08e8b8", "secret 3 first 3x0"},
	{"ad856e7fb6fe59c82b2b774a78ddffc5", "secret 3 first 3x255"},
	{"de78207b2bdc927421a9178062b706bf", "secret 3 last 2x0"},
	{"45db52f5c1789287e38f18d60b57498c", "secret 3 last 2x255"},
	{"78341f1f29bfe0c360767ebb3072766f", "secret 3 last 3x0"},
	{"60144c7b71318aeeb9e9abab34a68e28", "secret 3 last 3x255"},
	{"caefc5d09c165990c3ae06cda256a8a8", "sig 0 number 0 begins with ones"},
	{"d5cad37a5756f10253a830cf88f18857", "sig 0 number 0 bytes 30"},
	{"9a535ad863638c8016068bdaa35a4750", "sig 0 number 0 ends in zeros"},
	{"15cffbd71d7cf7e4314367028ad866e5", "sig 0 number 1 begins with ones"},
	{"aa364e072d5f9fb1785d13411d6b3445", "sig 0 number 1 bytes 30"},
	{"57769ec0b3060acbcd71ec44016dde8f", "sig 0 number 1 ends in zeros"},
	{"3ee083fbd7d2875c7ce96a984ad7c93c", "sig 1 number 0 begins with ones"},
	{"f4766584cc737f659516754f57e5d76d", "sig 1 number 0 bytes 29"},
	{"f5721b2787ec1e937e89204eec14dcb9", "sig 1 number 0 bytes 30"},
	{"47b514dd88e800d46a169404479a446c", "sig 1 number 0 ends in zeros"},
	{"a13ec9bf291d50cfedfb807e1ed921cc", "sig 1 number 1 begins with ones"},
	{"1cd81140afdd1694797bcc00c124ca6b", "sig 1 number 1 bytes 30"},
	{"d29dc2a2f384f7de18a834a5aab73c01", "sig 1 number 1 ends in zeros"},
	{"324fae399708d8e5ec3646922857a806", "sig 2 number 0 begins with ones"},
	{"b133087373b83a49d323f3aed177f60a", "sig 2 number 0 bytes 29"},
	{"f111d96f505becd29e0c1c2649837ba3", "sig 2 number 0 bytes 30"},
	{"07f8c3d41ba3fb80eef953ae01ad810d", "sig 2 number 0 ends in zeros"},
	{"c2deac787ce0e0e144a0a5e6b1f40f0c", "sig 2 number 1 begins with ones"},
	{"132cc498763780649c130b9851ef9c9d", "sig 2 number 1 bytes 30"},
	{"de5957e03501e4e5e7a9856642efa483", "sig 2 number 1 ends in zeros"},
	{"fc3ae13ad3bd926eec66040130a0da47", "sig 3 number 0 begins with ones"},
	{"8fa9a097265def0f9f5e4ef7ec5eee05", "sig 3 number 0 bytes 29"},
	{"9b833b4d06e23731427a498082a22c86", "sig 3 number 0 bytes 30"},
	{"69670cd788a23721cc0a8d4f1b3f69a7", "sig 3 number 0 ends in zeros"},
	{"92ee0d7c2958a2ed193b686b0565cdf3", "sig 3 number 1 begins with ones"},
	{"4fdf374a1473ed5df5123a21c4a4a014", "sig 3 number 1 bytes 30"},
	{"768cc7a64e306404d76e354086759dbf", "sig 3 number 1 ends in zeros"},
}
