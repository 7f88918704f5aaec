//! Digests of bytes i % 251, computed with Python hashlib (an implementation unrelated to the crates);
//! Blake3 of the empty input is the published test vector.
pub const VECTORS: &[(&str, usize, &str)] = &[
    ("F", 0, "0e5751c026e543b2e8ab2eb06099daa1d1e5df47778f7787faab45cdf12fe3a8"),
    ("F", 3, "3d8c3d594928271f44aad7a04b177154806867bcf918e1549c0bc16f9da2b09b"),
    ("F", 64, "10d8e6d534b00939843fe9dcc4dae48cdf008f6b8b2b82b156f5404d874887f5"),
    ("F", 111, "e08b3d16f0a3b663f319da999db897488d1677048a38fa7b4f1f783e4f1974e6"),
    ("F", 128, "c3582f71ebb2be66fa5dd750f80baae97554f3b015663c8be377cfcb2488c1d1"),
    ("F", 136, "6a35d3dadc62dfe7819519f92181b2f8d38f5e0ed3d51a22cf8a133ab628d6f4"),
    ("F", 1025, "533c8d76c0f61487431e7c31d15417c8b53887e4765b5597d0d03cb085014afb"),
    ("0E", 0, "786a02f742015903c6c6fd852552d272912f4740e15847618a86e217f71f5419d25e1031afee585313896444934eb04b903a685b1448b755d56f701afe9be2ce"),
    ("0E", 3, "40a374727302d9a4769c17b5f409ff32f58aa24ff122d7603e4fda1509e919d4107a52c57570a6d94e50967aea573b11f86f473f537565c66f7039830a85d186"),
    ("0E", 64, "2fc6e69fa26a89a5ed269092cb9b2a449a4409a7a44011eecad13d7c4b0456602d402fa5844f1a7a758136ce3d5d8d0e8b86921ffff4f692dd95bdc8e5ff0052"),
    ("0E", 111, "bf23c0c25c8060e4f6995f1623a3bebecaa96e308680000a8aa3cd56bb1a6da099e10d9231b37f4519b2efd2c24de72f31a5f19535241b4a59fa3c03ceb790e7"),
    ("0E", 128, "2319e3789c47e2daa5fe807f61bec2a1a6537fa03f19ff32e87eecbfd64b7e0e8ccff439ac333b040f19b0c4ddd11a61e24ac1fe0f10a039806c5dcc0da3d115"),
    ("0E", 136, "c08afa5b927bf08097afc5fff9ca4e7800125c1f52f2af3553fa2b89e1e3015c4f87d5e0a48956ad31450b083dad147ffb5ec03434a26830cf37d103ab50c5da"),
    ("0E", 1025, "7a9e5283a15d13b995755360fde4c65c2ae1bc0cf33e8db2ce8416e5d10697c73fc4b2622a29b938a1faec43d931b02e71ad8635e071265633643a9d9396ec28"),
    ("G", 0, "69217a3079908094e11121d042354a7c1f55b6482ca1a51e1b250dfd1ed0eef9"),
    ("G", 3, "e8f91c6ef232a041452ab0e149070cdd7dd1769e75b3a5921be37876c45c9900"),
    ("G", 64, "56f34e8b96557e90c1f24b52d0c89d51086acf1b00f634cf1dde9233b8eaaa3e"),
    ("G", 111, "0a4049d57e833b5695fac93dd1fbef3166b44b12ad11248662383ae051e15827"),
    ("G", 128, "1fa877de67259d19863a2a34bcc6962a2b25fcbf5cbecd7ede8f1fa36688a796"),
    ("G", 136, "67de25c02a4aaba23bdc973c8bb0b5796d47cc0659d43dff1f97de174963b68e"),
    ("G", 1025, "9b4b1bfb89177545cc59b321be5403774c58f061db927f04d206116b8278d2b4"),
    ("H", 0, "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a"),
    ("H", 3, "1186d49a4ad620618f760f29da2c593b2ec2cc2ced69dc16817390d861e62253"),
    ("H", 64, "c8ad478f4e1dd9d47dfc3b985708d92db1f8db48fe9cddd459e63c321f490402"),
    ("H", 111, "b08646567d09c477939ea7f417fa307ec0d522a41d4f8e7aab4d9a889ec67fef"),
    ("H", 128, "bec3ebfba06834f224543cca2a427cb9329147be93e19aeb0e33a7119c7f63ef"),
    ("H", 136, "cf3ccff92480a29160c2d38317c430e14749bfee1788106957dfe73f8c4930e5"),
    ("H", 1025, "413cf357775aef534fcd49da91a30f7877b50bbd924a20649315a4827f79cac0"),
    ("0F", 0, "a69f73cca23a9ac5c8b567dc185a756e97c982164fe25859e0d1dcc1475c80a615b2123af1f5f94c11e3e9402c3ac558f500199d95b6d3e301758586281dcd26"),
    ("0F", 3, "123119ad1d6e168e0f20a3af1fb2e29c76bc3f83711cf3ee3122ae37ef6a1c2e094bd4bc53b7f9a45c9db1f900f87a3759327a659de341ef1a7b1787afbe9ebc"),
    ("0F", 64, "cb29601efbee71f4dfbb7f1c2bdaeafdb212df6ae35f8bb1ee6c0a245b99f3f35a82957567a30cfb01ae28b94c7223a62c5c786e8624b8faddcb913e3ab2ce71"),
    ("0F", 111, "265cc0491a1ae6071edb97771ee58406c0670dec9c531dd0b44e8b7111fe51fdc6d44c3547d350e134116f9fa75d9836e6c38bc78c099a98e476a3a7cb955c8b"),
    ("0F", 128, "989c1995da9d2d341f993c2e2ca695f3477075061bfbd2cdf0be75cf7ba99fbe33d8d2c4dcc31fa89917786b883e6c9d5b02ed81b7483a4cb3ea98671588f745"),
    ("0F", 136, "ad8edff4f1b7aa1c63bbe49728ab9b165f7245b3d7102e6f99c261fc15d2d0bf6afef6a491720454a1349fbf5d848854875ac83a1156fd7f6e2a37af26c07fb2"),
    ("0F", 1025, "4d77323a341a3c8edd736ed718cb07deb66bcc5317dbc6f73da4c686dcec8440e414a2ed46ed5219cc226160b2416b276d9d9d95ad83c4c9e301397c89e37864"),
    ("I", 0, "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"),
    ("I", 3, "ae4b3280e56e2faf83f414a6e3dabe9d5fbe18976544c05fed121accb85b53fc"),
    ("I", 64, "fdeab9acf3710362bd2658cdc9a29e8f9c757fcf9811603a8c447cd1d9151108"),
    ("I", 111, "60780e9451bdc43cf4530ffc95cbb0c4eb24dae2c39f55f334d679e076c08065"),
    ("I", 128, "471fb943aa23c511f6f72f8d1652d9c880cfa392ad80503120547703e56a2be5"),
    ("I", 136, "ffc555203945df4e81d75f316e4c25fdc0bc4e96412f4f469349eb716f001a7d"),
    ("I", 1025, "bc0b6b10b89b9487a12fda2a8cc13194e7091c217aabf8b92846274026f4bcd0"),
    ("0G", 0, "cf83e1357eefb8bdf1542850d66d8007d620e4050b5715dc83f4a921d36ce9ce47d0d13c5d85f2b0ff8318d2877eec2f63b931bd47417a81a538327af927da3e"),
    ("0G", 3, "8081da5f9c1e3d0e1aa16f604d5e5064543cff5d7bace2bb312252461e151b3fe0f034ea8dc1dacff3361a892d625fbe1b614cda265f87a473c24b0fa1d91dfd"),
    ("0G", 64, "ee4320ebaf3fdb4f2c832b137200c08e235e0fa7bbd0eb1740c7063ba8a0d151da77e003398e1714a955d475b05e3e950b639503b452ec185de4229bc4873949"),
    ("0G", 111, "a1a111449b198d9b1f538bad7f3fc1022b3a5b1a5e90a0bc860de8512746cbc31599e6c834de3a3235327af0b51ff57bf7acf1974a73014d9c3953812edc7c8d"),
    ("0G", 128, "1dffd5e3adb71d45d2245939665521ae001a317a03720a45732ba1900ca3b8351fc5c9b4ca513eba6f80bc7b1d1fdad4abd13491cb824d61b08d8c0e1561b3f7"),
    ("0G", 136, "c58867d309ca48af74b4d7e49eced514c89fd433f9dd842f9b50ffaa6c7810bef35348d00d26dcbe28122ba1ce33d4cd00d09ba76f982a598b8f65790368ae59"),
    ("0G", 1025, "1f0cb287c12671e2f498170ff2762886686ceb88b7d63f944708d3060752376ff38e4a88ab7ceb0bb437083e7f1d051049b8d94356e72e4d59adcc102f585ac0"),
    ("E", 0, "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262"),
];
