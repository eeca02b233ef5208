// kind, key, nonce, aad, message, ciphertext and tag
const VECTORS: &[(u32, &str, &str, &str, &str, &str)] = &[
    (0, "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f", "6465666768696a6b6c6d6e6f70717273", "", "", "a82eb5a05312bb3bd0654452081202cdcd226f3b416878871e58fb859095e0c7257e4b952fcb1a23bc0b3d789107f2d3"),
    (1, "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f303132333435363738393a3b3c3d3e3f", "6465666768696a6b6c6d6e6f70717273", "", "", "f795f6e8802fd151a021a41150d4ab69f6a563683cca99869cba67e7b750ecf18622214096f3e226342253842207272fbe1da48340a84cd85a500ce2eee9b79ebcf03548b5eca34d27c25808bac0213c"),
    (0, "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f", "6465666768696a6b6c6d6e6f70717273", "", "0001020304", "900dbbe183f300b0c9f50200776539016e62787691e9c312eced17fb7a1b98efbe898784477dd2da2052814b3bc227ed"),
    (1, "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f303132333435363738393a3b3c3d3e3f", "6465666768696a6b6c6d6e6f70717273", "", "0001020304", "0c6f08e8d00f476fa15eb3ac672a63db6981b2b4fc19847118a380361f2a544c862d02f811501f288c51397460c886b4d4a85175933d55115f7053fa61332891d757b4aeac30fe36d311c52ec6779b33"),
    (0, "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f", "6465666768696a6b6c6d6e6f70717273", "0104070a0d1013", "000102030405060708090a0b0c0d0e0f", "c7bb70685ab7beedc87a3ecd1f2ac5c695cb0cf3f20e364526ee7eb38c31d2170ce06ffe31e7a40d46ae6e726c30a504d188f478054f33a90e29e694ed81ad5b"),
    (1, "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f303132333435363738393a3b3c3d3e3f", "6465666768696a6b6c6d6e6f70717273", "0104070a0d1013", "000102030405060708090a0b0c0d0e0f", "1b4dd132a4c840a32931649f08e9c042985b1fb5e74e2c0e0b11b22b9c0aba1ded2ac92511d9c91c09a88034c7cdd99ea1738c3e84ee2c768fa9a8377085901ea5d6325f53edf7086ad87568ef53b7855b85b8ee601fa1e27aa45f22d0bd32a4"),
    (0, "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f", "6465666768696a6b6c6d6e6f70717273", "0104070a0d101316191c1f2225282b2e3134373a3d404346494c4f5255585b5e61", "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f303132333435363738393a3b3c3d3e3f404142434445464748494a4b4c4d4e4f505152535455565758595a5b5c5d5e5f60616263", "c7bb70685ab7beedc87a3ecd1f2ac5c651d5e17e50f4d14095a841b11589eb94abf6a41c56cad9e12cf16dc942a2c6adad3d607f860ee976a18497b0b44ea37fa52a5b41be7309af2e549b4896a7f28884fed7ebd93a677c031a95720f9194953a4170bc12b6427cb3ec7b06611d5bf947d2d5201198832023244b6de3f39c5618bce3929bd835a9a9cd99c69290b40a"),
    (1, "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f303132333435363738393a3b3c3d3e3f", "6465666768696a6b6c6d6e6f70717273", "0104070a0d101316191c1f2225282b2e3134373a3d404346494c4f5255585b5e61", "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f303132333435363738393a3b3c3d3e3f404142434445464748494a4b4c4d4e4f505152535455565758595a5b5c5d5e5f60616263", "1b4dd132a4c840a32931649f08e9c042097899abe7ae5b31fbe063c45c9287b248d94c83a5b7217cd0c16a1fc65c6c42d19cf92877522f0a2e5dd4f00775b1add0b48ba0e3bbd5848c2ba590ded0cfa55aac8db60d6757e051a8552f459dc7ec9d2f4fcf1cef8b3d1cd4adb9fa95281159c226212a10c92489255e5de16e1dba3d8416d927777a1a6eefe12ed5d26e26a712fdc2552491ec02fb72efcb65ed7ceb15207cc45abc72dda652cd52988cc8"),
    (2, "00000000000000000000000000000000", "000000000000000000000000", "", "", "58e2fccefa7e3061367f1d57a4e7455a"),
    (2, "00000000000000000000000000000000", "000000000000000000000000", "", "00000000000000000000000000000000", "0388dace60b6a392f328c2b971b2fe78ab6e47d42cec13bdf53a67b21257bddf"),
    (3, "0000000000000000000000000000000000000000000000000000000000000000", "000000000000000000000000", "", "", "530f8afbc74536b9a963b4f1c4cb738b"),
    (3, "0000000000000000000000000000000000000000000000000000000000000000", "000000000000000000000000", "", "00000000000000000000000000000000", "cea7403d4d606b6e074ec5d3baf39d18d0d1c8a799996bf0265b98b5d48ab919"),
    (4, "808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f", "404142434445464748494a4b4c4d4e4f5051525354555657", "50515253c0c1c2c3c4c5c6c7", "4c616469657320616e642047656e746c656d656e206f662074686520636c617373206f66202739393a204966204920636f756c64206f6666657220796f75206f6e6c79206f6e652074697020666f7220746865206675747572652c2073756e73637265656e20776f756c642062652069742e", "bd6d179d3e83d43b9576579493c0e939572a1700252bfaccbed2902c21396cbb731c7f1b0b4aa6440bf3a82f4eda7e39ae64c6708c54c216cb96b72e1213b4522f8c9ba40db5d945b11b69b982c1bb9e3f3fac2bc369488f76b2383565d3fff921f9664c97637da9768812f615c68b13b52ec0875924c1c7987947deafd8780acf49"),
    (10, "808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f", "070000004041424344454647", "50515253c0c1c2c3c4c5c6c7", "4c616469657320616e642047656e746c656d656e206f662074686520636c617373206f66202739393a204966204920636f756c64206f6666657220796f75206f6e6c79206f6e652074697020666f7220746865206675747572652c2073756e73637265656e20776f756c642062652069742e", "d31a8d34648e60db7b86afbc53ef7ec2a4aded51296e08fea9e2b5a736ee62d63dbea45e8ca9671282fafb69da92728b1a71de0a9e060b2905d6a5b67ecd3b3692ddbd7f2d778b8c9803aee328091b58fab324e4fad675945585808b4831d7bc3ff4def08e4b7a9de576d26586cec64b61161ae10b594f09e26a7e902ecbd0600691"),
];
