{ "03a2310503010901", "camellia_128_ecb" },
{ "03a2310503010903", "camellia_128_ofb128" },
{ "03a2310503010904", "camellia_128_cfb128" },
{ "03a2310503010906", "camellia_128_gcm" },
{ "03a2310503010907", "camellia_128_ccm" },
{ "03a2310503010909", "camellia_128_ctr" },
{ "03a231050301090a", "camellia_128_cmac" },
{ "03a2310503010915", "camellia_192_ecb" },
{ "03a2310503010917", "camellia_192_ofb128" },
{ "03a2310503010918", "camellia_192_cfb128" },
{ "03a231050301091a", "camellia_192_gcm" },
{ "03a231050301091b", "camellia_192_ccm" },
{ "03a231050301091d", "camellia_192_ctr" },
{ "03a231050301091e", "camellia_192_cmac" },
{ "03a2310503010929", "camellia_256_ecb" },
{ "03a231050301092b", "camellia_256_ofb128" },
{ "03a231050301092c", "camellia_256_cfb128" },
{ "03a231050301092e", "camellia_256_gcm" },
{ "03a231050301092f", "camellia_256_ccm" },
{ "03a2310503010931", "camellia_256_ctr" },
{ "03a2310503010932", "camellia_256_cmac" },
{ "09", "data" },
{ "099226", "pss" },
{ "0992268993f22c", "ucl" },
{ "0992268993f22c64", "pilot" },
{ "0992268993f22c6401", "pilotAttributeType" },
{ "0992268993f22c640101", "userId" },
{ "0992268993f22c640102", "textEncodedORAddress" },
{ "0992268993f22c640103", "rfc822Mailbox" },
{ "0992268993f22c640104", "info" },
{ "0992268993f22c640105", "favouriteDrink" },
{ "0992268993f22c640106", "roomNumber" },
{ "0992268993f22c640107", "photo" },
{ "0992268993f22c640108", "userClass" },
{ "0992268993f22c640109", "host" },
{ "0992268993f22c64010a", "manager" },
{ "0992268993f22c64010b", "documentIdentifier" },
{ "0992268993f22c64010c", "documentTitle" },
{ "0992268993f22c64010d", "documentVersion" },
{ "0992268993f22c64010e", "documentAuthor" },
{ "0992268993f22c64010f", "documentLocation" },
{ "0992268993f22c640114", "homeTelephoneNumber" },
{ "0992268993f22c640115", "secretary" },
{ "0992268993f22c640116", "otherMailbox" },
{ "0992268993f22c640117", "lastModifiedTime" },
{ "0992268993f22c640118", "lastModifiedBy" },
{ "0992268993f22c640119", "domainComponent" },
{ "0992268993f22c64011a", "aRecord" },
{ "0992268993f22c64011b", "pilotAttributeType27" },
{ "0992268993f22c64011c", "mXRecord" },
{ "0992268993f22c64011d", "nSRecord" },
{ "0992268993f22c64011e", "sOARecord" },
{ "0992268993f22c64011f", "cNAMERecord" },
{ "0992268993f22c640125", "associatedDomain" },
{ "0992268993f22c640126", "associatedName" },
{ "0992268993f22c640127", "homePostalAddress" },
{ "0992268993f22c640128", "personalTitle" },
{ "0992268993f22c640129", "mobileTelephoneNumber" },
{ "0992268993f22c64012a", "pagerTelephoneNumber" },
{ "0992268993f22c64012b", "friendlyCountryName" },
{ "0992268993f22c64012c", "uniqueIdentifier" },
{ "0992268993f22c64012d", "organizationalStatus" },
{ "0992268993f22c64012e", "janetMailbox" },
{ "0992268993f22c64012f", "mailPreferenceOption" },
{ "0992268993f22c640130", "buildingName" },
{ "0992268993f22c640131", "dSAQuality" },
{ "0992268993f22c640132", "singleLevelQuality" },
{ "0992268993f22c640133", "subtreeMinimumQuality" },
{ "0992268993f22c640134", "subtreeMaximumQuality" },
{ "0992268993f22c640135", "personalSignature" },
{ "0992268993f22c640136", "dITRedirect" },
{ "0992268993f22c640137", "audio" },
{ "0992268993f22c640138", "documentPublisher" },
{ "0992268993f22c6403", "pilotAttributeSyntax" },
{ "0992268993f22c640304", "iA5StringSyntax" },
{ "0992268993f22c640305", "caseIgnoreIA5StringSyntax" },
{ "0992268993f22c6404", "pilotObjectClass" },
{ "0992268993f22c640403", "pilotObject" },
{ "0992268993f22c640404", "pilotPerson" },
{ "0992268993f22c640405", "account" },
{ "0992268993f22c640406", "document" },
{ "0992268993f22c640407", "room" },
{ "0992268993f22c640409", "documentSeries" },
{ "0992268993f22c64040d", "Domain" },
{ "0992268993f22c64040e", "rFC822localPart" },
{ "0992268993f22c64040f", "dNSDomain" },
{ "0992268993f22c640411", "domainRelatedObject" },
{ "0992268993f22c640412", "friendlyCountry" },
{ "0992268993f22c640413", "simpleSecurityObject" },
{ "0992268993f22c640414", "pilotOrganization" },
{ "0992268993f22c640415", "pilotDSA" },
{ "0992268993f22c640416", "qualityLabelledData" },
{ "0992268993f22c640a", "pilotGroups" },
{ "28cc450304", "gmac" },
{ "28cf06030037", "whirlpool" },
{ "2a", "member_body" },
{ "2a811c", "ISO_CN" },
{ "2a811ccf55", "oscca" },
{ "2a811ccf5501", "sm_scheme" },
{ "2a811ccf55016801", "sm4_ecb" },
{ "2a811ccf55016802", "sm4_cbc" },
{ "2a811ccf55016803", "sm4_ofb128" },
{ "2a811ccf55016804", "sm4_cfb128" },
{ "2a811ccf55016805", "sm4_cfb1" },
{ "2a811ccf55016806", "sm4_cfb8" },
{ "2a811ccf55016807", "sm4_ctr" },
{ "2a811ccf5501822d", "sm2" },
{ "2a811ccf55018311", "sm3" },
{ "2a811ccf55018375", "SM2_with_SM3" },
{ "2a811ccf55018378", "sm3WithRSAEncryption" },
{ "2a83088c9a4b3d01010102", "camellia_128_cbc" },
{ "2a83088c9a4b3d01010103", "camellia_192_cbc" },
{ "2a83088c9a4b3d01010104", "camellia_256_cbc" },
{ "2a83088c9a4b3d01010302", "id_camellia128_wrap" },
{ "2a83088c9a4b3d01010303", "id_camellia192_wrap" },
{ "2a83088c9a4b3d01010304", "id_camellia256_wrap" },
{ "2a831a8c9a44", "kisa" },
{ "2a831a8c9a440103", "seed_ecb" },
{ "2a831a8c9a440104", "seed_cbc" },
{ "2a831a8c9a440105", "seed_cfb128" },
{ "2a831a8c9a440106", "seed_ofb128" },
{ "2a831a8c9a6e010101", "aria_128_ecb" },
{ "2a831a8c9a6e010102", "aria_128_cbc" },
{ "2a831a8c9a6e010103", "aria_128_cfb128" },
{ "2a831a8c9a6e010104", "aria_128_ofb128" },
{ "2a831a8c9a6e010105", "aria_128_ctr" },
{ "2a831a8c9a6e010106", "aria_192_ecb" },
{ "2a831a8c9a6e010107", "aria_192_cbc" },
{ "2a831a8c9a6e010108", "aria_192_cfb128" },
{ "2a831a8c9a6e010109", "aria_192_ofb128" },
{ "2a831a8c9a6e01010a", "aria_192_ctr" },
{ "2a831a8c9a6e01010b", "aria_256_ecb" },
{ "2a831a8c9a6e01010c", "aria_256_cbc" },
{ "2a831a8c9a6e01010d", "aria_256_cfb128" },
{ "2a831a8c9a6e01010e", "aria_256_ofb128" },
{ "2a831a8c9a6e01010f", "aria_256_ctr" },
{ "2a831a8c9a6e010122", "aria_128_gcm" },
{ "2a831a8c9a6e010123", "aria_192_gcm" },
{ "2a831a8c9a6e010124", "aria_256_gcm" },
{ "2a831a8c9a6e010125", "aria_128_ccm" },
{ "2a831a8c9a6e010126", "aria_192_ccm" },
{ "2a831a8c9a6e010127", "aria_256_ccm" },
{ "2a85030202", "cryptopro" },
{ "2a8503020203", "id_GostR3411_94_with_GostR3410_2001" },
{ "2a8503020204", "id_GostR3411_94_with_GostR3410_94" },
{ "2a8503020209", "id_GostR3411_94" },
{ "2a850302020a", "id_HMACGostR3411_94" },
{ "2a850302020e00", "id_Gost28147_89_None_KeyMeshing" },
{ "2a850302020e01", "id_Gost28147_89_CryptoPro_KeyMeshing" },
{ "2a8503020213", "id_GostR3410_2001" },
{ "2a8503020214", "id_GostR3410_94" },
{ "2a850302021401", "id_GostR3410_94_a" },
{ "2a850302021402", "id_GostR3410_94_aBis" },
{ "2a850302021403", "id_GostR3410_94_b" },
{ "2a850302021404", "id_GostR3410_94_bBis" },
{ "2a8503020215", "id_Gost28147_89" },
{ "2a8503020216", "id_Gost28147_89_MAC" },
{ "2a8503020217", "id_GostR3411_94_prf" },
{ "2a850302021e00", "id_GostR3411_94_TestParamSet" },
{ "2a850302021e01", "id_GostR3411_94_CryptoProParamSet" },
{ "2a850302021f00", "id_Gost28147_89_TestParamSet" },
{ "2a850302021f01", "id_Gost28147_89_CryptoPro_A_ParamSet" },
{ "2a850302021f02", "id_Gost28147_89_CryptoPro_B_ParamSet" },
{ "2a850302021f03", "id_Gost28147_89_CryptoPro_C_ParamSet" },
{ "2a850302021f04", "id_Gost28147_89_CryptoPro_D_ParamSet" },
{ "2a850302021f05", "id_Gost28147_89_CryptoPro_Oscar_1_1_ParamSet" },
{ "2a850302021f06", "id_Gost28147_89_CryptoPro_Oscar_1_0_ParamSet" },
{ "2a850302021f07", "id_Gost28147_89_CryptoPro_RIC_1_ParamSet" },
{ "2a850302022000", "id_GostR3410_94_TestParamSet" },
{ "2a850302022002", "id_GostR3410_94_CryptoPro_A_ParamSet" },
{ "2a850302022003", "id_GostR3410_94_CryptoPro_B_ParamSet" },
{ "2a850302022004", "id_GostR3410_94_CryptoPro_C_ParamSet" },
{ "2a850302022005", "id_GostR3410_94_CryptoPro_D_ParamSet" },
{ "2a850302022101", "id_GostR3410_94_CryptoPro_XchA_ParamSet" },
{ "2a850302022102", "id_GostR3410_94_CryptoPro_XchB_ParamSet" },
{ "2a850302022103", "id_GostR3410_94_CryptoPro_XchC_ParamSet" },
{ "2a850302022300", "id_GostR3410_2001_TestParamSet" },
{ "2a850302022301", "id_GostR3410_2001_CryptoPro_A_ParamSet" },
{ "2a850302022302", "id_GostR3410_2001_CryptoPro_B_ParamSet" },
{ "2a850302022303", "id_GostR3410_2001_CryptoPro_C_ParamSet" },
{ "2a850302022400", "id_GostR3410_2001_CryptoPro_XchA_ParamSet" },
{ "2a850302022401", "id_GostR3410_2001_CryptoPro_XchB_ParamSet" },
{ "2a8503020262", "id_GostR3410_2001DH" },
{ "2a8503020263", "id_GostR3410_94DH" },
{ "2a85030209", "cryptocom" },
{ "2a85030209010303", "id_GostR3411_94_with_GostR3410_94_cc" },
{ "2a85030209010304", "id_GostR3411_94_with_GostR3410_2001_cc" },
{ "2a85030209010503", "id_GostR3410_94_cc" },
{ "2a85030209010504", "id_GostR3410_2001_cc" },
{ "2a85030209010601", "id_Gost28147_89_cc" },
{ "2a85030209010801", "id_GostR3410_2001_ParamSet_cc" },
{ "2a85030381030101", "INN" },
{ "2a85030701", "id_tc26" },
{ "2a8503070101", "id_tc26_algorithms" },
{ "2a850307010101", "id_tc26_sign" },
{ "2a85030701010101", "id_GostR3410_2012_256" },
{ "2a85030701010102", "id_GostR3410_2012_512" },
{ "2a850307010102", "id_tc26_digest" },
{ "2a85030701010202", "id_GostR3411_2012_256" },
{ "2a85030701010203", "id_GostR3411_2012_512" },
{ "2a850307010103", "id_tc26_signwithdigest" },
{ "2a85030701010302", "id_tc26_signwithdigest_gost3410_2012_256" },
{ "2a85030701010303", "id_tc26_signwithdigest_gost3410_2012_512" },
{ "2a850307010104", "id_tc26_mac" },
{ "2a85030701010401", "id_tc26_hmac_gost_3411_2012_256" },
{ "2a85030701010402", "id_tc26_hmac_gost_3411_2012_512" },
{ "2a850307010105", "id_tc26_cipher" },
{ "2a85030701010501", "id_tc26_cipher_gostr3412_2015_magma" },
{ "2a8503070101050101", "id_tc26_cipher_gostr3412_2015_magma_ctracpkm" },
{ "2a8503070101050102", "id_tc26_cipher_gostr3412_2015_magma_ctracpkm_omac" },
{ "2a85030701010502", "id_tc26_cipher_gostr3412_2015_kuznyechik" },
{ "2a8503070101050201", "id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm" },
{ "2a8503070101050202", "id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac" },
{ "2a850307010106", "id_tc26_agreement" },
{ "2a85030701010601", "id_tc26_agreement_gost_3410_2012_256" },
{ "2a85030701010602", "id_tc26_agreement_gost_3410_2012_512" },
{ "2a850307010107", "id_tc26_wrap" },
{ "2a85030701010701", "id_tc26_wrap_gostr3412_2015_magma" },
{ "2a8503070101070101", "id_tc26_wrap_gostr3412_2015_magma_kexp15" },
{ "2a85030701010702", "id_tc26_wrap_gostr3412_2015_kuznyechik" },
{ "2a8503070101070201", "id_tc26_wrap_gostr3412_2015_kuznyechik_kexp15" },
{ "2a8503070102", "id_tc26_constants" },
{ "2a850307010201", "id_tc26_sign_constants" },
{ "2a85030701020101", "id_tc26_gost_3410_2012_256_constants" },
{ "2a8503070102010101", "id_tc26_gost_3410_2012_256_paramSetA" },
{ "2a8503070102010102", "id_tc26_gost_3410_2012_256_paramSetB" },
{ "2a8503070102010103", "id_tc26_gost_3410_2012_256_paramSetC" },
{ "2a8503070102010104", "id_tc26_gost_3410_2012_256_paramSetD" },
{ "2a85030701020102", "id_tc26_gost_3410_2012_512_constants" },
{ "2a8503070102010200", "id_tc26_gost_3410_2012_512_paramSetTest" },
{ "2a8503070102010201", "id_tc26_gost_3410_2012_512_paramSetA" },
{ "2a8503070102010202", "id_tc26_gost_3410_2012_512_paramSetB" },
{ "2a8503070102010203", "id_tc26_gost_3410_2012_512_paramSetC" },
{ "2a850307010202", "id_tc26_digest_constants" },
{ "2a850307010205", "id_tc26_cipher_constants" },
{ "2a85030701020501", "id_tc26_gost_28147_constants" },
{ "2a8503070102050101", "id_tc26_gost_28147_param_Z" },
{ "2a85036401", "OGRN" },
{ "2a85036403", "SNILS" },
{ "2a8503646f", "subjectSignTool" },
{ "2a85036470", "issuerSignTool" },
{ "2a8624", "ISO_UA" },
{ "2a862402010101", "ua_pki" },
{ "2a862402010101010101", "dstu28147" },
{ "2a86240201010101010102", "dstu28147_ofb" },
{ "2a86240201010101010103", "dstu28147_cfb" },
{ "2a86240201010101010105", "dstu28147_wrap" },
{ "2a862402010101010102", "hmacWithDstu34311" },
{ "2a862402010101010201", "dstu34311" },
{ "2a86240201010101030101", "dstu4145le" },
{ "2a862402010101010301010101", "dstu4145be" },
{ "2a862402010101010301010200", "uacurve0" },
{ "2a862402010101010301010201", "uacurve1" },
{ "2a862402010101010301010202", "uacurve2" },
{ "2a862402010101010301010203", "uacurve3" },
{ "2a862402010101010301010204", "uacurve4" },
{ "2a862402010101010301010205", "uacurve5" },
{ "2a862402010101010301010206", "uacurve6" },
{ "2a862402010101010301010207", "uacurve7" },
{ "2a862402010101010301010208", "uacurve8" },
{ "2a862402010101010301010209", "uacurve9" },
{ "2a8648", "ISO_US" },
{ "2a864886f67d07420a", "cast5_cbc" },
{ "2a864886f67d07420c", "pbeWithMD5AndCast5_CBC" },
{ "2a864886f67d07420d", "id_PasswordBasedMAC" },
{ "2a864886f67d07421e", "id_DHBasedMac" },
{ "2a864886f70d", "rsadsi" },
{ "2a864886f70d01", "pkcs" },
{ "2a864886f70d0101", "pkcs1" },
{ "2a864886f70d010101", "rsaEncryption" },
{ "2a864886f70d010102", "md2WithRSAEncryption" },
{ "2a864886f70d010103", "md4WithRSAEncryption" },
{ "2a864886f70d010104", "md5WithRSAEncryption" },
{ "2a864886f70d010105", "sha1WithRSAEncryption" },
{ "2a864886f70d010106", "rsaOAEPEncryptionSET" },
{ "2a864886f70d010107", "rsaesOaep" },
{ "2a864886f70d010108", "mgf1" },
{ "2a864886f70d010109", "pSpecified" },
{ "2a864886f70d01010a", "rsassaPss" },
{ "2a864886f70d01010b", "sha256WithRSAEncryption" },
{ "2a864886f70d01010c", "sha384WithRSAEncryption" },
{ "2a864886f70d01010d", "sha512WithRSAEncryption" },
{ "2a864886f70d01010e", "sha224WithRSAEncryption" },
{ "2a864886f70d01010f", "sha512_224WithRSAEncryption" },
{ "2a864886f70d010110", "sha512_256WithRSAEncryption" },
{ "2a864886f70d0103", "pkcs3" },
{ "2a864886f70d010301", "dhKeyAgreement" },
{ "2a864886f70d0105", "pkcs5" },
{ "2a864886f70d010501", "pbeWithMD2AndDES_CBC" },
{ "2a864886f70d010503", "pbeWithMD5AndDES_CBC" },
{ "2a864886f70d010504", "pbeWithMD2AndRC2_CBC" },
{ "2a864886f70d010506", "pbeWithMD5AndRC2_CBC" },
{ "2a864886f70d01050a", "pbeWithSHA1AndDES_CBC" },
{ "2a864886f70d01050b", "pbeWithSHA1AndRC2_CBC" },
{ "2a864886f70d01050c", "id_pbkdf2" },
{ "2a864886f70d01050d", "pbes2" },
{ "2a864886f70d01050e", "pbmac1" },
{ "2a864886f70d0107", "pkcs7" },
{ "2a864886f70d010701", "pkcs7_data" },
{ "2a864886f70d010702", "pkcs7_signed" },
{ "2a864886f70d010703", "pkcs7_enveloped" },
{ "2a864886f70d010704", "pkcs7_signedAndEnveloped" },
{ "2a864886f70d010705", "pkcs7_digest" },
{ "2a864886f70d010706", "pkcs7_encrypted" },
{ "2a864886f70d0109", "pkcs9" },
{ "2a864886f70d010901", "pkcs9_emailAddress" },
{ "2a864886f70d010902", "pkcs9_unstructuredName" },
{ "2a864886f70d010903", "pkcs9_contentType" },
{ "2a864886f70d010904", "pkcs9_messageDigest" },
{ "2a864886f70d010905", "pkcs9_signingTime" },
{ "2a864886f70d010906", "pkcs9_countersignature" },
{ "2a864886f70d010907", "pkcs9_challengePassword" },
{ "2a864886f70d010908", "pkcs9_unstructuredAddress" },
{ "2a864886f70d010909", "pkcs9_extCertAttributes" },
{ "2a864886f70d01090e", "ext_req" },
{ "2a864886f70d01090f", "SMIMECapabilities" },
{ "2a864886f70d010910", "SMIME" },
{ "2a864886f70d01091000", "id_smime_mod" },
{ "2a864886f70d0109100001", "id_smime_mod_cms" },
{ "2a864886f70d0109100002", "id_smime_mod_ess" },
{ "2a864886f70d0109100003", "id_smime_mod_oid" },
{ "2a864886f70d0109100004", "id_smime_mod_msg_v3" },
{ "2a864886f70d0109100005", "id_smime_mod_ets_eSignature_88" },
{ "2a864886f70d0109100006", "id_smime_mod_ets_eSignature_97" },
{ "2a864886f70d0109100007", "id_smime_mod_ets_eSigPolicy_88" },
{ "2a864886f70d0109100008", "id_smime_mod_ets_eSigPolicy_97" },
{ "2a864886f70d01091001", "id_smime_ct" },
{ "2a864886f70d0109100101", "id_smime_ct_receipt" },
{ "2a864886f70d0109100102", "id_smime_ct_authData" },
{ "2a864886f70d0109100103", "id_smime_ct_publishCert" },
{ "2a864886f70d0109100104", "id_smime_ct_TSTInfo" },
{ "2a864886f70d0109100105", "id_smime_ct_TDTInfo" },
{ "2a864886f70d0109100106", "id_smime_ct_contentInfo" },
{ "2a864886f70d0109100107", "id_smime_ct_DVCSRequestData" },
{ "2a864886f70d0109100108", "id_smime_ct_DVCSResponseData" },
{ "2a864886f70d0109100109", "id_smime_ct_compressedData" },
{ "2a864886f70d0109100113", "id_smime_ct_contentCollection" },
{ "2a864886f70d0109100117", "id_smime_ct_authEnvelopedData" },
{ "2a864886f70d010910011b", "id_ct_asciiTextWithCRLF" },
{ "2a864886f70d010910011c", "id_ct_xml" },
{ "2a864886f70d01091002", "id_smime_aa" },
{ "2a864886f70d0109100201", "id_smime_aa_receiptRequest" },
{ "2a864886f70d0109100202", "id_smime_aa_securityLabel" },
{ "2a864886f70d0109100203", "id_smime_aa_mlExpandHistory" },
{ "2a864886f70d0109100204", "id_smime_aa_contentHint" },
{ "2a864886f70d0109100205", "id_smime_aa_msgSigDigest" },
{ "2a864886f70d0109100206", "id_smime_aa_encapContentType" },
{ "2a864886f70d0109100207", "id_smime_aa_contentIdentifier" },
{ "2a864886f70d0109100208", "id_smime_aa_macValue" },
{ "2a864886f70d0109100209", "id_smime_aa_equivalentLabels" },
{ "2a864886f70d010910020a", "id_smime_aa_contentReference" },
{ "2a864886f70d010910020b", "id_smime_aa_encrypKeyPref" },
{ "2a864886f70d010910020c", "id_smime_aa_signingCertificate" },
{ "2a864886f70d010910020d", "id_smime_aa_smimeEncryptCerts" },
{ "2a864886f70d010910020e", "id_smime_aa_timeStampToken" },
{ "2a864886f70d010910020f", "id_smime_aa_ets_sigPolicyId" },
{ "2a864886f70d0109100210", "id_smime_aa_ets_commitmentType" },
{ "2a864886f70d0109100211", "id_smime_aa_ets_signerLocation" },
{ "2a864886f70d0109100212", "id_smime_aa_ets_signerAttr" },
{ "2a864886f70d0109100213", "id_smime_aa_ets_otherSigCert" },
{ "2a864886f70d0109100214", "id_smime_aa_ets_contentTimestamp" },
{ "2a864886f70d0109100215", "id_smime_aa_ets_CertificateRefs" },
{ "2a864886f70d0109100216", "id_smime_aa_ets_RevocationRefs" },
{ "2a864886f70d0109100217", "id_smime_aa_ets_certValues" },
{ "2a864886f70d0109100218", "id_smime_aa_ets_revocationValues" },
{ "2a864886f70d0109100219", "id_smime_aa_ets_escTimeStamp" },
{ "2a864886f70d010910021a", "id_smime_aa_ets_certCRLTimestamp" },
{ "2a864886f70d010910021b", "id_smime_aa_ets_archiveTimeStamp" },
{ "2a864886f70d010910021c", "id_smime_aa_signatureType" },
{ "2a864886f70d010910021d", "id_smime_aa_dvcs_dvc" },
{ "2a864886f70d010910022f", "id_smime_aa_signingCertificateV2" },
{ "2a864886f70d01091003", "id_smime_alg" },
{ "2a864886f70d0109100301", "id_smime_alg_ESDHwith3DES" },
{ "2a864886f70d0109100302", "id_smime_alg_ESDHwithRC2" },
{ "2a864886f70d0109100303", "id_smime_alg_3DESwrap" },
{ "2a864886f70d0109100304", "id_smime_alg_RC2wrap" },
{ "2a864886f70d0109100305", "id_smime_alg_ESDH" },
{ "2a864886f70d0109100306", "id_smime_alg_CMS3DESwrap" },
{ "2a864886f70d0109100307", "id_smime_alg_CMSRC2wrap" },
{ "2a864886f70d0109100308", "zlib_compression" },
{ "2a864886f70d0109100309", "id_alg_PWRI_KEK" },
{ "2a864886f70d01091004", "id_smime_cd" },
{ "2a864886f70d0109100401", "id_smime_cd_ldap" },
{ "2a864886f70d01091005", "id_smime_spq" },
{ "2a864886f70d0109100501", "id_smime_spq_ets_sqt_uri" },
{ "2a864886f70d0109100502", "id_smime_spq_ets_sqt_unotice" },
{ "2a864886f70d01091006", "id_smime_cti" },
{ "2a864886f70d0109100601", "id_smime_cti_ets_proofOfOrigin" },
{ "2a864886f70d0109100602", "id_smime_cti_ets_proofOfReceipt" },
{ "2a864886f70d0109100603", "id_smime_cti_ets_proofOfDelivery" },
{ "2a864886f70d0109100604", "id_smime_cti_ets_proofOfSender" },
{ "2a864886f70d0109100605", "id_smime_cti_ets_proofOfApproval" },
{ "2a864886f70d0109100606", "id_smime_cti_ets_proofOfCreation" },
{ "2a864886f70d010914", "friendlyName" },
{ "2a864886f70d010915", "localKeyID" },
{ "2a864886f70d01091601", "x509Certificate" },
{ "2a864886f70d01091602", "sdsiCertificate" },
{ "2a864886f70d01091701", "x509Crl" },
{ "2a864886f70d010c0101", "pbe_WithSHA1And128BitRC4" },
{ "2a864886f70d010c0102", "pbe_WithSHA1And40BitRC4" },
{ "2a864886f70d010c0103", "pbe_WithSHA1And3_Key_TripleDES_CBC" },
{ "2a864886f70d010c0104", "pbe_WithSHA1And2_Key_TripleDES_CBC" },
{ "2a864886f70d010c0105", "pbe_WithSHA1And128BitRC2_CBC" },
{ "2a864886f70d010c0106", "pbe_WithSHA1And40BitRC2_CBC" },
{ "2a864886f70d010c0a0101", "keyBag" },
{ "2a864886f70d010c0a0102", "pkcs8ShroudedKeyBag" },
{ "2a864886f70d010c0a0103", "certBag" },
{ "2a864886f70d010c0a0104", "crlBag" },
{ "2a864886f70d010c0a0105", "secretBag" },
{ "2a864886f70d010c0a0106", "safeContentsBag" },
{ "2a864886f70d0202", "md2" },
{ "2a864886f70d0204", "md4" },
{ "2a864886f70d0205", "md5" },
{ "2a864886f70d0206", "hmacWithMD5" },
{ "2a864886f70d0207", "hmacWithSHA1" },
{ "2a864886f70d0208", "hmacWithSHA224" },
{ "2a864886f70d0209", "hmacWithSHA256" },
{ "2a864886f70d020a", "hmacWithSHA384" },
{ "2a864886f70d020b", "hmacWithSHA512" },
{ "2a864886f70d020c", "hmacWithSHA512_224" },
{ "2a864886f70d020d", "hmacWithSHA512_256" },
{ "2a864886f70d0302", "rc2_cbc" },
{ "2a864886f70d0304", "rc4" },
{ "2a864886f70d0307", "des_ede3_cbc" },
{ "2a864886f70d0308", "rc5_cbc" },
{ "2a864886f70d030a", "des_cdmf" },
{ "2a8648ce38", "X9_57" },
{ "2a8648ce380201", "hold_instruction_none" },
{ "2a8648ce380202", "hold_instruction_call_issuer" },
{ "2a8648ce380203", "hold_instruction_reject" },
{ "2a8648ce3804", "X9cm" },
{ "2a8648ce380401", "dsa" },
{ "2a8648ce380403", "dsaWithSHA1" },
{ "2a8648ce3d", "ansi_X9_62" },
{ "2a8648ce3d0101", "X9_62_prime_field" },
{ "2a8648ce3d0102", "X9_62_characteristic_two_field" },
{ "2a8648ce3d010203", "X9_62_id_characteristic_two_basis" },
{ "2a8648ce3d01020301", "X9_62_onBasis" },
{ "2a8648ce3d01020302", "X9_62_tpBasis" },
{ "2a8648ce3d01020303", "X9_62_ppBasis" },
{ "2a8648ce3d0201", "X9_62_id_ecPublicKey" },
{ "2a8648ce3d030001", "X9_62_c2pnb163v1" },
{ "2a8648ce3d030002", "X9_62_c2pnb163v2" },
{ "2a8648ce3d030003", "X9_62_c2pnb163v3" },
{ "2a8648ce3d030004", "X9_62_c2pnb176v1" },
{ "2a8648ce3d030005", "X9_62_c2tnb191v1" },
{ "2a8648ce3d030006", "X9_62_c2tnb191v2" },
{ "2a8648ce3d030007", "X9_62_c2tnb191v3" },
{ "2a8648ce3d030008", "X9_62_c2onb191v4" },
{ "2a8648ce3d030009", "X9_62_c2onb191v5" },
{ "2a8648ce3d03000a", "X9_62_c2pnb208w1" },
{ "2a8648ce3d03000b", "X9_62_c2tnb239v1" },
{ "2a8648ce3d03000c", "X9_62_c2tnb239v2" },
{ "2a8648ce3d03000d", "X9_62_c2tnb239v3" },
{ "2a8648ce3d03000e", "X9_62_c2onb239v4" },
{ "2a8648ce3d03000f", "X9_62_c2onb239v5" },
{ "2a8648ce3d030010", "X9_62_c2pnb272w1" },
{ "2a8648ce3d030011", "X9_62_c2pnb304w1" },
{ "2a8648ce3d030012", "X9_62_c2tnb359v1" },
{ "2a8648ce3d030013", "X9_62_c2pnb368w1" },
{ "2a8648ce3d030014", "X9_62_c2tnb431r1" },
{ "2a8648ce3d030101", "X9_62_prime192v1" },
{ "2a8648ce3d030102", "X9_62_prime192v2" },
{ "2a8648ce3d030103", "X9_62_prime192v3" },
{ "2a8648ce3d030104", "X9_62_prime239v1" },
{ "2a8648ce3d030105", "X9_62_prime239v2" },
{ "2a8648ce3d030106", "X9_62_prime239v3" },
{ "2a8648ce3d030107", "X9_62_prime256v1" },
{ "2a8648ce3d0401", "ecdsa_with_SHA1" },
{ "2a8648ce3d0402", "ecdsa_with_Recommended" },
{ "2a8648ce3d0403", "ecdsa_with_Specified" },
{ "2a8648ce3d040301", "ecdsa_with_SHA224" },
{ "2a8648ce3d040302", "ecdsa_with_SHA256" },
{ "2a8648ce3d040303", "ecdsa_with_SHA384" },
{ "2a8648ce3d040304", "ecdsa_with_SHA512" },
{ "2a8648ce3e0201", "dhpublicnumber" },
{ "2b", "org|identified_organization" },
{ "2b06", "dod" },
{ "2b0601", "iana" },
{ "2b060101", "Directory" },
{ "2b060102", "Management" },
{ "2b060103", "Experimental" },
{ "2b060104", "Private" },
{ "2b06010401", "Enterprises" },
{ "2b06010401813c07010102", "idea_cbc" },
{ "2b06010401823702010e", "ms_ext_req" },
{ "2b060104018237020115", "ms_code_ind" },
{ "2b060104018237020116", "ms_code_com" },
{ "2b0601040182370a0301", "ms_ctl_sign" },
{ "2b0601040182370a0303", "ms_sgc" },
{ "2b0601040182370a0304", "ms_efs" },
{ "2b0601040182371101", "ms_csp_name" },
{ "2b0601040182371102", "LocalKeySet" },
{ "2b060104018237140202", "ms_smartcard_login" },
{ "2b060104018237140203", "ms_upn" },
{ "2b0601040182373c020101", "jurisdictionLocalityName" },
{ "2b0601040182373c020102", "jurisdictionStateOrProvinceName" },
{ "2b0601040182373c020103", "jurisdictionCountryName" },
{ "2b060104018b3a8258", "dcObject" },
{ "2b060104018d3a0c0201", "blake2bmac" },
{ "2b060104018d3a0c020110", "blake2b512" },
{ "2b060104018d3a0c0202", "blake2smac" },
{ "2b060104018d3a0c020208", "blake2s256" },
{ "2b0601040197550102", "bf_cbc" },
{ "2b06010401d679020402", "ct_precert_scts" },
{ "2b06010401d679020403", "ct_precert_poison" },
{ "2b06010401d679020404", "ct_precert_signer" },
{ "2b06010401d679020405", "ct_cert_scts" },
{ "2b06010401da47040b", "id_scrypt" },
{ "2b060105", "Security" },
{ "2b0601050203", "id_pkinit" },
{ "2b060105020304", "pkInitClientAuth" },
{ "2b060105020305", "pkInitKDC" },
{ "2b0601050507", "id_pkix" },
{ "2b060105050700", "id_pkix_mod" },
{ "2b06010505070001", "id_pkix1_explicit_88" },
{ "2b06010505070002", "id_pkix1_implicit_88" },
{ "2b06010505070003", "id_pkix1_explicit_93" },
{ "2b06010505070004", "id_pkix1_implicit_93" },
{ "2b06010505070005", "id_mod_crmf" },
{ "2b06010505070006", "id_mod_cmc" },
{ "2b06010505070007", "id_mod_kea_profile_88" },
{ "2b06010505070008", "id_mod_kea_profile_93" },
{ "2b06010505070009", "id_mod_cmp" },
{ "2b0601050507000a", "id_mod_qualified_cert_88" },
{ "2b0601050507000b", "id_mod_qualified_cert_93" },
{ "2b0601050507000c", "id_mod_attribute_cert" },
{ "2b0601050507000d", "id_mod_timestamp_protocol" },
{ "2b0601050507000e", "id_mod_ocsp" },
{ "2b0601050507000f", "id_mod_dvcs" },
{ "2b06010505070010", "id_mod_cmp2000" },
{ "2b060105050701", "id_pe" },
{ "2b06010505070101", "info_access" },
{ "2b06010505070102", "biometricInfo" },
{ "2b06010505070103", "qcStatements" },
{ "2b06010505070104", "ac_auditEntity" },
{ "2b06010505070105", "ac_targeting" },
{ "2b06010505070106", "aaControls" },
{ "2b06010505070107", "sbgp_ipAddrBlock" },
{ "2b06010505070108", "sbgp_autonomousSysNum" },
{ "2b06010505070109", "sbgp_routerIdentifier" },
{ "2b0601050507010a", "ac_proxying" },
{ "2b0601050507010b", "sinfo_access" },
{ "2b0601050507010e", "proxyCertInfo" },
{ "2b06010505070118", "tlsfeature" },
{ "2b060105050702", "id_qt" },
{ "2b06010505070201", "id_qt_cps" },
{ "2b06010505070202", "id_qt_unotice" },
{ "2b06010505070203", "textNotice" },
{ "2b060105050703", "id_kp" },
{ "2b06010505070301", "server_auth" },
{ "2b06010505070302", "client_auth" },
{ "2b06010505070303", "code_sign" },
{ "2b06010505070304", "email_protect" },
{ "2b06010505070305", "ipsecEndSystem" },
{ "2b06010505070306", "ipsecTunnel" },
{ "2b06010505070307", "ipsecUser" },
{ "2b06010505070308", "time_stamp" },
{ "2b06010505070309", "OCSP_sign" },
{ "2b0601050507030a", "dvcs" },
{ "2b06010505070311", "ipsec_IKE" },
{ "2b06010505070312", "capwapAC" },
{ "2b06010505070313", "capwapWTP" },
{ "2b06010505070315", "sshClient" },
{ "2b06010505070316", "sshServer" },
{ "2b06010505070317", "sendRouter" },
{ "2b06010505070318", "sendProxiedRouter" },
{ "2b06010505070319", "sendOwner" },
{ "2b0601050507031a", "sendProxiedOwner" },
{ "2b0601050507031b", "cmcCA" },
{ "2b0601050507031c", "cmcRA" },
{ "2b060105050704", "id_it" },
{ "2b06010505070401", "id_it_caProtEncCert" },
{ "2b06010505070402", "id_it_signKeyPairTypes" },
{ "2b06010505070403", "id_it_encKeyPairTypes" },
{ "2b06010505070404", "id_it_preferredSymmAlg" },
{ "2b06010505070405", "id_it_caKeyUpdateInfo" },
{ "2b06010505070406", "id_it_currentCRL" },
{ "2b06010505070407", "id_it_unsupportedOIDs" },
{ "2b06010505070408", "id_it_subscriptionRequest" },
{ "2b06010505070409", "id_it_subscriptionResponse" },
{ "2b0601050507040a", "id_it_keyPairParamReq" },
{ "2b0601050507040b", "id_it_keyPairParamRep" },
{ "2b0601050507040c", "id_it_revPassphrase" },
{ "2b0601050507040d", "id_it_implicitConfirm" },
{ "2b0601050507040e", "id_it_confirmWaitTime" },
{ "2b0601050507040f", "id_it_origPKIMessage" },
{ "2b06010505070410", "id_it_suppLangTags" },
{ "2b060105050705", "id_pkip" },
{ "2b06010505070501", "id_regCtrl" },
{ "2b0601050507050101", "id_regCtrl_regToken" },
{ "2b0601050507050102", "id_regCtrl_authenticator" },
{ "2b0601050507050103", "id_regCtrl_pkiPublicationInfo" },
{ "2b0601050507050104", "id_regCtrl_pkiArchiveOptions" },
{ "2b0601050507050105", "id_regCtrl_oldCertID" },
{ "2b0601050507050106", "id_regCtrl_protocolEncrKey" },
{ "2b06010505070502", "id_regInfo" },
{ "2b0601050507050201", "id_regInfo_utf8Pairs" },
{ "2b0601050507050202", "id_regInfo_certReq" },
{ "2b060105050706", "id_alg" },
{ "2b06010505070601", "id_alg_des40" },
{ "2b06010505070602", "id_alg_noSignature" },
{ "2b06010505070603", "id_alg_dh_sig_hmac_sha1" },
{ "2b06010505070604", "id_alg_dh_pop" },
{ "2b060105050707", "id_cmc" },
{ "2b06010505070701", "id_cmc_statusInfo" },
{ "2b06010505070702", "id_cmc_identification" },
{ "2b06010505070703", "id_cmc_identityProof" },
{ "2b06010505070704", "id_cmc_dataReturn" },
{ "2b06010505070705", "id_cmc_transactionId" },
{ "2b06010505070706", "id_cmc_senderNonce" },
{ "2b06010505070707", "id_cmc_recipientNonce" },
{ "2b06010505070708", "id_cmc_addExtensions" },
{ "2b06010505070709", "id_cmc_encryptedPOP" },
{ "2b0601050507070a", "id_cmc_decryptedPOP" },
{ "2b0601050507070b", "id_cmc_lraPOPWitness" },
{ "2b0601050507070f", "id_cmc_getCert" },
{ "2b06010505070710", "id_cmc_getCRL" },
{ "2b06010505070711", "id_cmc_revokeRequest" },
{ "2b06010505070712", "id_cmc_regInfo" },
{ "2b06010505070713", "id_cmc_responseInfo" },
{ "2b06010505070715", "id_cmc_queryPending" },
{ "2b06010505070716", "id_cmc_popLinkRandom" },
{ "2b06010505070717", "id_cmc_popLinkWitness" },
{ "2b06010505070718", "id_cmc_confirmCertAcceptance" },
{ "2b060105050708", "id_on" },
{ "2b06010505070801", "id_on_personalData" },
{ "2b06010505070803", "id_on_permanentIdentifier" },
{ "2b06010505070805", "XmppAddr" },
{ "2b06010505070807", "SRVName" },
{ "2b06010505070809", "id_on_SmtpUTF8Mailbox" },
{ "2b060105050709", "id_pda" },
{ "2b06010505070901", "id_pda_dateOfBirth" },
{ "2b06010505070902", "id_pda_placeOfBirth" },
{ "2b06010505070903", "id_pda_gender" },
{ "2b06010505070904", "id_pda_countryOfCitizenship" },
{ "2b06010505070905", "id_pda_countryOfResidence" },
{ "2b06010505070a", "id_aca" },
{ "2b06010505070a01", "id_aca_authenticationInfo" },
{ "2b06010505070a02", "id_aca_accessIdentity" },
{ "2b06010505070a03", "id_aca_chargingIdentity" },
{ "2b06010505070a04", "id_aca_group" },
{ "2b06010505070a05", "id_aca_role" },
{ "2b06010505070a06", "id_aca_encAttrs" },
{ "2b06010505070b", "id_qcs" },
{ "2b06010505070b01", "id_qcs_pkixQCSyntax_v1" },
{ "2b06010505070c", "id_cct" },
{ "2b06010505070c01", "id_cct_crs" },
{ "2b06010505070c02", "id_cct_PKIData" },
{ "2b06010505070c03", "id_cct_PKIResponse" },
{ "2b060105050715", "id_ppl" },
{ "2b06010505071500", "id_ppl_anyLanguage" },
{ "2b06010505071501", "id_ppl_inheritAll" },
{ "2b06010505071502", "Independent" },
{ "2b060105050730", "id_ad" },
{ "2b06010505073001", "ad_OCSP" },
{ "2b0601050507300101", "id_pkix_OCSP_basic" },
{ "2b0601050507300102", "id_pkix_OCSP_Nonce" },
{ "2b0601050507300103", "id_pkix_OCSP_CrlID" },
{ "2b0601050507300104", "id_pkix_OCSP_acceptableResponses" },
{ "2b0601050507300105", "id_pkix_OCSP_noCheck" },
{ "2b0601050507300106", "id_pkix_OCSP_archiveCutoff" },
{ "2b0601050507300107", "id_pkix_OCSP_serviceLocator" },
{ "2b0601050507300108", "id_pkix_OCSP_extendedStatus" },
{ "2b0601050507300109", "id_pkix_OCSP_valid" },
{ "2b060105050730010a", "id_pkix_OCSP_path" },
{ "2b060105050730010b", "id_pkix_OCSP_trustRoot" },
{ "2b06010505073002", "ad_ca_issuers" },
{ "2b06010505073003", "ad_timeStamping" },
{ "2b06010505073004", "ad_dvcs" },
{ "2b06010505073005", "caRepository" },
{ "2b06010505080101", "hmac_md5" },
{ "2b06010505080102", "hmac_sha1" },
{ "2b060106", "SNMPv2" },
{ "2b060107", "Mail" },
{ "2b06010701", "mime_mhs" },
{ "2b0601070101", "mime_mhs_headings" },
{ "2b060107010101", "id_hex_partial_message" },
{ "2b060107010102", "id_hex_multipart_message" },
{ "2b0601070102", "mime_mhs_bodies" },
{ "2b0e0302", "algorithm" },
{ "2b0e030203", "md5WithRSA" },
{ "2b0e030206", "des_ecb" },
{ "2b0e030207", "des_cbc" },
{ "2b0e030208", "des_ofb64" },
{ "2b0e030209", "des_cfb64" },
{ "2b0e03020b", "rsaSignature" },
{ "2b0e03020c", "dsa_2" },
{ "2b0e03020d", "dsaWithSHA" },
{ "2b0e03020f", "shaWithRSAEncryption" },
{ "2b0e030211", "des_ede_ecb" },
{ "2b0e030212", "sha" },
{ "2b0e03021a", "sha1" },
{ "2b0e03021b", "dsaWithSHA1_2" },
{ "2b0e03021d", "sha1WithRSA" },
{ "2b24030201", "ripemd160" },
{ "2b2403030102", "ripemd160WithRSA" },
{ "2b2403030208010101", "brainpoolP160r1" },
{ "2b2403030208010102", "brainpoolP160t1" },
{ "2b2403030208010103", "brainpoolP192r1" },
{ "2b2403030208010104", "brainpoolP192t1" },
{ "2b2403030208010105", "brainpoolP224r1" },
{ "2b2403030208010106", "brainpoolP224t1" },
{ "2b2403030208010107", "brainpoolP256r1" },
{ "2b2403030208010108", "brainpoolP256t1" },
{ "2b2403030208010109", "brainpoolP320r1" },
{ "2b240303020801010a", "brainpoolP320t1" },
{ "2b240303020801010b", "brainpoolP384r1" },
{ "2b240303020801010c", "brainpoolP384t1" },
{ "2b240303020801010d", "brainpoolP512r1" },
{ "2b240303020801010e", "brainpoolP512t1" },
{ "2b24080303", "x509ExtAdmission" },
{ "2b65010401", "sxnet" },
{ "2b656e", "X25519" },
{ "2b656f", "X448" },
{ "2b6570", "ED25519" },
{ "2b6571", "ED448" },
{ "2b6f", "ieee" },
{ "2b6f028c53", "ieee_siswg" },
{ "2b6f028c53000101", "aes_128_xts" },
{ "2b6f028c53000102", "aes_256_xts" },
{ "2b8104", "certicom_arc" },
{ "2b81040001", "sect163k1" },
{ "2b81040002", "sect163r1" },
{ "2b81040003", "sect239k1" },
{ "2b81040004", "sect113r1" },
{ "2b81040005", "sect113r2" },
{ "2b81040006", "secp112r1" },
{ "2b81040007", "secp112r2" },
{ "2b81040008", "secp160r1" },
{ "2b81040009", "secp160k1" },
{ "2b8104000a", "secp256k1" },
{ "2b8104000f", "sect163r2" },
{ "2b81040010", "sect283k1" },
{ "2b81040011", "sect283r1" },
{ "2b81040016", "sect131r1" },
{ "2b81040017", "sect131r2" },
{ "2b81040018", "sect193r1" },
{ "2b81040019", "sect193r2" },
{ "2b8104001a", "sect233k1" },
{ "2b8104001b", "sect233r1" },
{ "2b8104001c", "secp128r1" },
{ "2b8104001d", "secp128r2" },
{ "2b8104001e", "secp160r2" },
{ "2b8104001f", "secp192k1" },
{ "2b81040020", "secp224k1" },
{ "2b81040021", "secp224r1" },
{ "2b81040022", "secp384r1" },
{ "2b81040023", "secp521r1" },
{ "2b81040024", "sect409k1" },
{ "2b81040025", "sect409r1" },
{ "2b81040026", "sect571k1" },
{ "2b81040027", "sect571r1" },
{ "2b8104010b00", "dhSinglePass_stdDH_sha224kdf_scheme" },
{ "2b8104010b01", "dhSinglePass_stdDH_sha256kdf_scheme" },
{ "2b8104010b02", "dhSinglePass_stdDH_sha384kdf_scheme" },
{ "2b8104010b03", "dhSinglePass_stdDH_sha512kdf_scheme" },
{ "2b8104010e00", "dhSinglePass_cofactorDH_sha224kdf_scheme" },
{ "2b8104010e01", "dhSinglePass_cofactorDH_sha256kdf_scheme" },
{ "2b8104010e02", "dhSinglePass_cofactorDH_sha384kdf_scheme" },
{ "2b8104010e03", "dhSinglePass_cofactorDH_sha512kdf_scheme" },
{ "2b81051086483f0002", "dhSinglePass_stdDH_sha1kdf_scheme" },
{ "2b81051086483f0003", "dhSinglePass_cofactorDH_sha1kdf_scheme" },
{ "55", "X500" },
{ "550105", "selected_attribute_types" },
{ "55010537", "clearance" },
{ "5504", "X509" },
{ "550403", "commonName" },
{ "550404", "surname" },
{ "550405", "serialNumber" },
{ "550406", "countryName" },
{ "550407", "localityName" },
{ "550408", "stateOrProvinceName" },
{ "550409", "streetAddress" },
{ "55040a", "organizationName" },
{ "55040b", "organizationalUnitName" },
{ "55040c", "title" },
{ "55040d", "description" },
{ "55040e", "searchGuide" },
{ "55040f", "businessCategory" },
{ "550410", "postalAddress" },
{ "550411", "postalCode" },
{ "550412", "postOfficeBox" },
{ "550413", "physicalDeliveryOfficeName" },
{ "550414", "telephoneNumber" },
{ "550415", "telexNumber" },
{ "550416", "teletexTerminalIdentifier" },
{ "550417", "facsimileTelephoneNumber" },
{ "550418", "x121Address" },
{ "550419", "internationaliSDNNumber" },
{ "55041a", "registeredAddress" },
{ "55041b", "destinationIndicator" },
{ "55041c", "preferredDeliveryMethod" },
{ "55041d", "presentationAddress" },
{ "55041e", "supportedApplicationContext" },
{ "55041f", "member" },
{ "550420", "owner" },
{ "550421", "roleOccupant" },
{ "550422", "seeAlso" },
{ "550423", "userPassword" },
{ "550424", "userCertificate" },
{ "550425", "cACertificate" },
{ "550426", "authorityRevocationList" },
{ "550427", "certificateRevocationList" },
{ "550428", "crossCertificatePair" },
{ "550429", "name" },
{ "55042a", "givenName" },
{ "55042b", "initials" },
{ "55042c", "generationQualifier" },
{ "55042d", "x500UniqueIdentifier" },
{ "55042e", "dnQualifier" },
{ "55042f", "enhancedSearchGuide" },
{ "550430", "protocolInformation" },
{ "550431", "distinguishedName" },
{ "550432", "uniqueMember" },
{ "550433", "houseIdentifier" },
{ "550434", "supportedAlgorithms" },
{ "550435", "deltaRevocationList" },
{ "550436", "dmdName" },
{ "550441", "pseudonym" },
{ "550448", "role" },
{ "550461", "organizationIdentifier" },
{ "550462", "countryCode3c" },
{ "550463", "countryCode3n" },
{ "550464", "dnsName" },
{ "5508", "X500algorithms" },
{ "55080101", "rsa" },
{ "55080364", "mdc2WithRSA" },
{ "55080365", "mdc2" },
{ "551d", "id_ce" },
{ "551d09", "subject_directory_attributes" },
{ "551d0e", "subject_key_identifier" },
{ "551d0f", "key_usage" },
{ "551d10", "private_key_usage_period" },
{ "551d11", "subject_alt_name" },
{ "551d12", "issuer_alt_name" },
{ "551d13", "basic_constraints" },
{ "551d14", "crl_number" },
{ "551d15", "crl_reason" },
{ "551d17", "hold_instruction_code" },
{ "551d18", "invalidity_date" },
{ "551d1b", "delta_crl" },
{ "551d1c", "issuing_distribution_point" },
{ "551d1d", "certificate_issuer" },
{ "551d1e", "name_constraints" },
{ "551d1f", "crl_distribution_points" },
{ "551d20", "certificate_policies" },
{ "551d2000", "any_policy" },
{ "551d21", "policy_mappings" },
{ "551d23", "authority_key_identifier" },
{ "551d24", "policy_constraints" },
{ "551d25", "ext_key_usage" },
{ "551d2500", "anyExtendedKeyUsage" },
{ "551d2e", "freshest_crl" },
{ "551d36", "inhibit_any_policy" },
{ "551d37", "target_information" },
{ "551d38", "no_rev_avail" },
{ "608648016503040101", "aes_128_ecb" },
{ "608648016503040102", "aes_128_cbc" },
{ "608648016503040103", "aes_128_ofb128" },
{ "608648016503040104", "aes_128_cfb128" },
{ "608648016503040105", "id_aes128_wrap" },
{ "608648016503040106", "aes_128_gcm" },
{ "608648016503040107", "aes_128_ccm" },
{ "608648016503040108", "id_aes128_wrap_pad" },
{ "608648016503040115", "aes_192_ecb" },
{ "608648016503040116", "aes_192_cbc" },
{ "608648016503040117", "aes_192_ofb128" },
{ "608648016503040118", "aes_192_cfb128" },
{ "608648016503040119", "id_aes192_wrap" },
{ "60864801650304011a", "aes_192_gcm" },
{ "60864801650304011b", "aes_192_ccm" },
{ "60864801650304011c", "id_aes192_wrap_pad" },
{ "608648016503040129", "aes_256_ecb" },
{ "60864801650304012a", "aes_256_cbc" },
{ "60864801650304012b", "aes_256_ofb128" },
{ "60864801650304012c", "aes_256_cfb128" },
{ "60864801650304012d", "id_aes256_wrap" },
{ "60864801650304012e", "aes_256_gcm" },
{ "60864801650304012f", "aes_256_ccm" },
{ "608648016503040130", "id_aes256_wrap_pad" },
{ "608648016503040201", "sha256" },
{ "608648016503040202", "sha384" },
{ "608648016503040203", "sha512" },
{ "608648016503040204", "sha224" },
{ "608648016503040205", "sha512_224" },
{ "608648016503040206", "sha512_256" },
{ "608648016503040207", "sha3_224" },
{ "608648016503040208", "sha3_256" },
{ "608648016503040209", "sha3_384" },
{ "60864801650304020a", "sha3_512" },
{ "60864801650304020b", "shake128" },
{ "60864801650304020c", "shake256" },
{ "60864801650304020d", "hmac_sha3_224" },
{ "60864801650304020e", "hmac_sha3_256" },
{ "60864801650304020f", "hmac_sha3_384" },
{ "608648016503040210", "hmac_sha3_512" },
{ "608648016503040213", "kmac128" },
{ "608648016503040214", "kmac256" },
{ "608648016503040301", "dsa_with_SHA224" },
{ "608648016503040302", "dsa_with_SHA256" },
{ "608648016503040303", "dsa_with_SHA384" },
{ "608648016503040304", "dsa_with_SHA512" },
{ "608648016503040305", "dsa_with_SHA3_224" },
{ "608648016503040306", "dsa_with_SHA3_256" },
{ "608648016503040307", "dsa_with_SHA3_384" },
{ "608648016503040308", "dsa_with_SHA3_512" },
{ "608648016503040309", "ecdsa_with_SHA3_224" },
{ "60864801650304030a", "ecdsa_with_SHA3_256" },
{ "60864801650304030b", "ecdsa_with_SHA3_384" },
{ "60864801650304030c", "ecdsa_with_SHA3_512" },
{ "60864801650304030d", "RSA_SHA3_224" },
{ "60864801650304030e", "RSA_SHA3_256" },
{ "60864801650304030f", "RSA_SHA3_384" },
{ "608648016503040310", "RSA_SHA3_512" },
{ "6086480186f842", "netscape" },
{ "6086480186f84201", "netscape_cert_extension" },
{ "6086480186f8420101", "netscape_cert_type" },
{ "6086480186f8420102", "netscape_base_url" },
{ "6086480186f8420103", "netscape_revocation_url" },
{ "6086480186f8420104", "netscape_ca_revocation_url" },
{ "6086480186f8420107", "netscape_renewal_url" },
{ "6086480186f8420108", "netscape_ca_policy_url" },
{ "6086480186f842010c", "netscape_ssl_server_name" },
{ "6086480186f842010d", "netscape_comment" },
{ "6086480186f84202", "netscape_data_type" },
{ "6086480186f8420205", "netscape_cert_sequence" },
{ "6086480186f8420401", "ns_sgc" },
{ "67", "international_organizations" },
{ "672a", "id_set" },
{ "672a00", "set_ctype" },
{ "672a0000", "setct_PANData" },
{ "672a0001", "setct_PANToken" },
{ "672a0002", "setct_PANOnly" },
{ "672a0003", "setct_OIData" },
{ "672a0004", "setct_PI" },
{ "672a0005", "setct_PIData" },
{ "672a0006", "setct_PIDataUnsigned" },
{ "672a0007", "setct_HODInput" },
{ "672a0008", "setct_AuthResBaggage" },
{ "672a0009", "setct_AuthRevReqBaggage" },
{ "672a000a", "setct_AuthRevResBaggage" },
{ "672a000b", "setct_CapTokenSeq" },
{ "672a000c", "setct_PInitResData" },
{ "672a000d", "setct_PI_TBS" },
{ "672a000e", "setct_PResData" },
{ "672a0010", "setct_AuthReqTBS" },
{ "672a0011", "setct_AuthResTBS" },
{ "672a0012", "setct_AuthResTBSX" },
{ "672a0013", "setct_AuthTokenTBS" },
{ "672a0014", "setct_CapTokenData" },
{ "672a0015", "setct_CapTokenTBS" },
{ "672a0016", "setct_AcqCardCodeMsg" },
{ "672a0017", "setct_AuthRevReqTBS" },
{ "672a0018", "setct_AuthRevResData" },
{ "672a0019", "setct_AuthRevResTBS" },
{ "672a001a", "setct_CapReqTBS" },
{ "672a001b", "setct_CapReqTBSX" },
{ "672a001c", "setct_CapResData" },
{ "672a001d", "setct_CapRevReqTBS" },
{ "672a001e", "setct_CapRevReqTBSX" },
{ "672a001f", "setct_CapRevResData" },
{ "672a0020", "setct_CredReqTBS" },
{ "672a0021", "setct_CredReqTBSX" },
{ "672a0022", "setct_CredResData" },
{ "672a0023", "setct_CredRevReqTBS" },
{ "672a0024", "setct_CredRevReqTBSX" },
{ "672a0025", "setct_CredRevResData" },
{ "672a0026", "setct_PCertReqData" },
{ "672a0027", "setct_PCertResTBS" },
{ "672a0028", "setct_BatchAdminReqData" },
{ "672a0029", "setct_BatchAdminResData" },
{ "672a002a", "setct_CardCInitResTBS" },
{ "672a002b", "setct_MeAqCInitResTBS" },
{ "672a002c", "setct_RegFormResTBS" },
{ "672a002d", "setct_CertReqData" },
{ "672a002e", "setct_CertReqTBS" },
{ "672a002f", "setct_CertResData" },
{ "672a0030", "setct_CertInqReqTBS" },
{ "672a0031", "setct_ErrorTBS" },
{ "672a0032", "setct_PIDualSignedTBE" },
{ "672a0033", "setct_PIUnsignedTBE" },
{ "672a0034", "setct_AuthReqTBE" },
{ "672a0035", "setct_AuthResTBE" },
{ "672a0036", "setct_AuthResTBEX" },
{ "672a0037", "setct_AuthTokenTBE" },
{ "672a0038", "setct_CapTokenTBE" },
{ "672a0039", "setct_CapTokenTBEX" },
{ "672a003a", "setct_AcqCardCodeMsgTBE" },
{ "672a003b", "setct_AuthRevReqTBE" },
{ "672a003c", "setct_AuthRevResTBE" },
{ "672a003d", "setct_AuthRevResTBEB" },
{ "672a003e", "setct_CapReqTBE" },
{ "672a003f", "setct_CapReqTBEX" },
{ "672a0040", "setct_CapResTBE" },
{ "672a0041", "setct_CapRevReqTBE" },
{ "672a0042", "setct_CapRevReqTBEX" },
{ "672a0043", "setct_CapRevResTBE" },
{ "672a0044", "setct_CredReqTBE" },
{ "672a0045", "setct_CredReqTBEX" },
{ "672a0046", "setct_CredResTBE" },
{ "672a0047", "setct_CredRevReqTBE" },
{ "672a0048", "setct_CredRevReqTBEX" },
{ "672a0049", "setct_CredRevResTBE" },
{ "672a004a", "setct_BatchAdminReqTBE" },
{ "672a004b", "setct_BatchAdminResTBE" },
{ "672a004c", "setct_RegFormReqTBE" },
{ "672a004d", "setct_CertReqTBE" },
{ "672a004e", "setct_CertReqTBEX" },
{ "672a004f", "setct_CertResTBE" },
{ "672a0050", "setct_CRLNotificationTBS" },
{ "672a0051", "setct_CRLNotificationResTBS" },
{ "672a0052", "setct_BCIDistributionTBS" },
{ "672a01", "set_msgExt" },
{ "672a0101", "setext_genCrypt" },
{ "672a0103", "setext_miAuth" },
{ "672a0104", "setext_pinSecure" },
{ "672a0105", "setext_pinAny" },
{ "672a0107", "setext_track2" },
{ "672a0108", "setext_cv" },
{ "672a03", "set_attr" },
{ "672a0300", "setAttr_Cert" },
{ "672a030000", "set_rootKeyThumb" },
{ "672a030001", "set_addPolicy" },
{ "672a0301", "setAttr_PGWYcap" },
{ "672a0302", "setAttr_TokenType" },
{ "672a030201", "setAttr_Token_EMV" },
{ "672a030202", "setAttr_Token_B0Prime" },
{ "672a0303", "setAttr_IssCap" },
{ "672a030303", "setAttr_IssCap_CVM" },
{ "672a03030301", "setAttr_GenCryptgrm" },
{ "672a030304", "setAttr_IssCap_T2" },
{ "672a03030401", "setAttr_T2Enc" },
{ "672a03030402", "setAttr_T2cleartxt" },
{ "672a030305", "setAttr_IssCap_Sig" },
{ "672a03030501", "setAttr_TokICCsig" },
{ "672a03030502", "setAttr_SecDevSig" },
{ "672a05", "set_policy" },
{ "672a0500", "set_policy_root" },
{ "672a07", "set_certExt" },
{ "672a0700", "setCext_hashedRoot" },
{ "672a0701", "setCext_certType" },
{ "672a0702", "setCext_merchData" },
{ "672a0703", "setCext_cCertRequired" },
{ "672a0704", "setCext_tunneling" },
{ "672a0705", "setCext_setExt" },
{ "672a0706", "setCext_setQualf" },
{ "672a0707", "setCext_PGWYcapabilities" },
{ "672a0708", "setCext_TokenIdentifier" },
{ "672a0709", "setCext_Track2Data" },
{ "672a070a", "setCext_TokenType" },
{ "672a070b", "setCext_IssuerCapabilities" },
{ "672a08", "set_brand" },
{ "672a0801", "set_brand_IATA_ATA" },
{ "672a0804", "set_brand_Visa" },
{ "672a0805", "set_brand_MasterCard" },
{ "672a081e", "set_brand_Diners" },
{ "672a0822", "set_brand_AmericanExpress" },
{ "672a0823", "set_brand_JCB" },
{ "672a08ae7b", "set_brand_Novus" },
{ "672b", "wap" },
{ "672b01", "wap_wsg" },
{ "672b010401", "wap_wsg_idm_ecid_wtls1" },
{ "672b010403", "wap_wsg_idm_ecid_wtls3" },
{ "672b010404", "wap_wsg_idm_ecid_wtls4" },
{ "672b010405", "wap_wsg_idm_ecid_wtls5" },
{ "672b010406", "wap_wsg_idm_ecid_wtls6" },
{ "672b010407", "wap_wsg_idm_ecid_wtls7" },
{ "672b010408", "wap_wsg_idm_ecid_wtls8" },
{ "672b010409", "wap_wsg_idm_ecid_wtls9" },
{ "672b01040a", "wap_wsg_idm_ecid_wtls10" },
{ "672b01040b", "wap_wsg_idm_ecid_wtls11" },
{ "672b01040c", "wap_wsg_idm_ecid_wtls12" },
