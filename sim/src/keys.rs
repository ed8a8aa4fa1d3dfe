//! RSA keys for imports: n, d, p, q, d mod p-1, d mod q-1, 1/q mod p (e = 65537).
pub const RSA: &[[&str; 7]] = &[
    ["c8136aa8330629685a9dff7f28f07ea7d6fd10982a4385354cf5ca87c50518d45608837585db094c1c22449a295d4cb7b63621c1c23ebc1806c7e62b9932c54e24d23f73cdf98ad5d7b017a90398d251acc22c4dadb70113cd3f5f0f8dfc2ceaa9f88366ba03dfd6fc0167e03e8e87ab4440b40e41688a8b327bb73a0c9de5fd", "afbe967e7eab57ee094325edada96aa7c5a9ef4caa3b3b2471a0a9b18ef78632e60b7e65da1967d64a1433cc72af38b75abfbbf135cde36cfb6fd617cfef0feda14bd42ac8926994d1f6ed417b64ca6285d71fce9cc849d2667f8c88da02f28125bcf5cd761d4f353b1656b931b360e929f461604c709ab7f73ffe923724caa1", "ed96b2e02aad16ad184b9531ad25d375cfd90b8f6d6ddffa2a404b61dfaa886926fbb0b1023d0c193c97873b520034eae02efa588728e18252f4e8bd0e0fcdd9", "d794892c0abaf962b5115cfd529b14eb41e622fb2e61ec4c45ef35b90b8639da6fe56bacf40689a92a6c68a05e52204450e30ea61b274c88e1451dcdcb03aec5", "b2af791e60da46c8ae120246172bf0aa95446e8e5345a482d80dfce3c23cd655072d9a08b65f455f2193f0efeb4f1e7d5b57d98e853078d1f4241f7a383e2899", "495efb64aaee41ec6f55ce81453914e090d823b5bb6e867edb1a73fd5bc7be2ef300712a370f7690c5a889df72da9eb2c198d5a680fd5a16081d7eec48992345", "6f31c9fc052217fe677b3c1766b162fd3b5d3bc0b5129778a19e49e47eecda3815c3dbd501fabe77171e31bc7486245bdd2d70743deb82531e395601629779a8"],
    ["b1142385482e79084c34d8d91ed573a844bf7767d397e226269bf3a225e2d8e026b36a75e827f45319c47ef3906cad86c372e042f1234896061e611bc563893888dc9eb840f669d7d64b3e185bc3a59dcfe77493217483fedb9e951d70d6e39407d52a9f75643862f363bf4cd0def3ddb03ca6c8f961643918cd4fc7e5f8783d", "040cdcdf208e87902c060d6bb1ebd9f0605a2cc6002dfa2b3b38d7f2be8118cacfb7ccd8938dce65d4320d614ecd5d8eb68bbb1b6cde8cbb79ba5a2843748a5fe9e2cb592aacb26ba607cf330aab4a6b90f5a1672ceaf095571f53b5c8c077f422bb11b755acf834b29eafdad0a5c84e6b96732aa50468f7f23e82f1eafa4081", "e813be4e9e855e877ee1115711fb9d28ba3165540ba44c62b61fc6b00ae7638404ab7fbc9203e3bc9a51f6db267d622d6573d14ac7318ec566b9ec75d39dd41d", "c3550c239c51178d0ff345b6e49f5f3d01035c78ecce6c810ae90f79c949618f77f1101714825612a70ceb8a005a3bc05d14881cfd93be2a394177663cadbaa1", "05cb1861160bf64423a2b2b01dbece398a0c599f337b327cf456eebace4ae06d1740c0bb90599081d0c863052d7ccbca9e51b9d3c80d30a734dd474dd9ae82f1", "9ee9e4345c8a44c4c8c33c666d5d939807e8fa248f53e9469adfbd6d716b37ea06c4a23884c0fcd1b40278e60f1f5a194820da13ebe17506d909ffdfb76207c1", "cea9318de6dc6ae33483ebfeac3ef56888da192202c337af8323478a3a962f259392527d48f283cfd73280b4502e7d7d877a00aa5e837c4185dd104ed3fd5b2e"],
    ["982525487081c7f920d825f0579b6576b70d86920909b6dc8ebe1d77483ba0dc47dff733efd282c2689b54752578f2c3dbe86755e49f002e99217737c7572855a682b22b75ffc802b2caa63e71fbb6872a5100d00e6fa01d46f2cc1c5130bf8881ad525302fc34de151ced057c27eba3ed63486c63f8471a9f1e8363c462d405", "862efc9acedf2747093898fd47c6bdcdddd4080374052549907b0bf1cfbb073c4007bf3607255a3dab9493005e74356797e3787fc08a9ad67e278dc59c01ba87b38b44069fd79bdaf4a9b347f4471f0b024993968f3bd79362faedf223fa9e7bcdeb74b51758fff6669d2a94931ffcf68dd36dc534650a90c7f960a4127b0f61", "c95405cc0da06f5da47d757cd870bba62fc20dcbd6478f9032bd71114592630ebf3ac58c4b03ccb67763568e724de4e7bd57d87fcca72a51bddba98552ca830f", "c176003bacb1b5e44cf606d50ddf394d2f0c9126b7d83d8dc6b995f1ea4a7b460231a039ed60280647c907f29a13c7eb713b5378145016e99bbba347587a27ab", "76cb1b3891f9ce7c84a87a8095fdbedb8a668859743079676e6915a44956dd184081df3aaeb0a9442921f65acadb676bcdef5d91db21eff8977c5b848d9b6cc5", "380718a22fad77e41a75d61cb5dbc4189a5ba55df53866fb3c665b0aa8b3d167c112e638608acc8ca5158f7baf2bb36678709a07d8ba292896b58ce008bbb7e9", "556e5ac209135256a64de7293a00edf0958d03e446934e9edd2617f804f6c873a4df0c98990080907a21b09c3f9a1f254c17262842477fb9590eeb6833df7ce4"],
    ["b17dff3396b0dfa403bb708469f397f6ed73e03e017be702fbed803e310507569734d34d59eea62862b9f5df33fd644921f064c013938e84cdb162910f5fd710a211ab3677e77f3bdead0f24f9f38b4a881bfb14f2b1bfa2a0cd88f0086ae91298a935137b11feca012b321d40203b441cd10736eee23351a4ea4453daf92533", "1eddbf74b43efc1564c4c2f3740d759eee7a5943cf3441df45fa6e73e24872973f626360af440e4735ac0b330eb2812f2aa4c8909296f590e8c87150b2b0c3108a45075ad201f17f39f9fb633de398f80baa49cba0bf6e3c4974b750610446a47219364d536467c664600042ab623adfc723d857161292a6a6575db3e97a4931", "da8eedd09758de0f29bad2af5f28300f6c05a67c87bef9755b410b25c021536e9795a176c3373134f00a5e79e56627a2382f4b71b8fd469edaa033a8446407d9", "cfe6135195f74a9a219ceac84800bab99fcc1541187763f4e61b832dcde643d710f6fef23cf2c9ecef61a34ea2b2918df24c132bf71356609a0a5c9bb417d9eb", "5ace399689db3d5fb569ceb1586add14fb3f99bd71b4f1f64574cfc9de7aba2c5fc4a6722e8796e534ba4a28811c21696fc88ea2f04622fa4b417654fa1d4979", "0ffe9169eb71b5099aa069e7b2b26bab304211388adb549358c8b114eb0c5617cbb454f4e9ff7bcd80b5304d32732e838f2a8f2708c1321a087fd7941b0ce2b5", "15cb3a18e0a82e9023c9e84207a9f2483112ef9b4dbed68b651be75c2b5b16e7e6ae1e0cdf49c645947497465522c02146d5a190b74a8b68df0f122a212f547e"],
];
/// prime of the group of RFC 7919, appendix A.1
pub const FFDHE2048: &str = "ffffffffffffffffadf85458a2bb4a9aafdc5620273d3cf1d8b9c583ce2d3695a9e13641146433fbcc939dce249b3ef97d2fe363630c75d8f681b202aec4617ad3df1ed5d5fd65612433f51f5f066ed0856365553ded1af3b557135e7f57c935984f0c70e0e68b77e2a689daf3efe8721df158a136ade73530acca4f483a797abc0ab182b324fb61d108a94bb2c8e3fbb96adab760d7f4681d4f42a3de394df4ae56ede76372bb190b07a7c8ee0a6d709e02fce1cdf7e2ecc03404cd28342f619172fe9ce98583ff8e4f1232eef28183c3fe3b1b4c6fad733bb5fcbc2ec22005c58ef1837d1683b2c6f34a26c1b2effa886b423861285c97ffffffffffffffff";
