# -*- coding: utf-8 -*-
"""moments of the 24 terms of sampled years (see tools/mkterms.py)"""
DIGITS = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz-_'
TERMS = {
    1: 'Vbr_VSBKVK1VVEEfVAwBVAcmVD57VIU8VQALVZtLVkjPVw4pW54kWEyqWN3_WSmAWVp5WVr2WT5PWNYyWFsFW6HFVxiWVmbI',
    8: 'VcFUVSReVKPjVESzVBFfVAo7VDMRVIcMVQMUVZzZVkqrVwBWW59yWF78WNAsWT0NWV-cWWBsWTMWWN_GWGBaW6mKVy39Vn3w',
    15: 'VcFAVSViVKLMVESNVB6uVAiMVDAKVIRaVQ8iVZkDVkd8VvvEW4-IWEq_WN2wWSnRWVxSWW1fWTNwWNv4WGFyW6hyVy7uVm-I',
    22: 'VcMLVSbdVKTpVEYyVBEVVAoUVDF7VIWrVQ9WVZoiVka0VvypW4trWEshWMvlWSmaWVm_WV_zWTF6WNwBWGBvW6ovVyAKVnC2',
    29: 'VcecVSp7VKhOVEhEVBNYVAreVDLWVIWYVQGFVZoFVkkJVw00W57JWE_fWNDaWS-lWW7GWWHMWTc5WOCbWGYVW74bVyVpVnRy',
    36: 'VcX8VSoiVKabVEgWVBEpVAohVD8dVIQNVP_7VZfWVkRLVvrqW4q-WEqQWMzSWSpFWVvwWW62WTQMWO0uWGMTW6tnVyIJVnD-',
    43: 'Vcq9VSyWVKscVEoSVBUOVAt6VDKRVIQDVQ5yVZb3VkSiVvlQW4p8WEn4WMzbWStpWW0ZWWKIWTerWONIWGh4W7IkVyffVnfS',
    48: 'VcuJVT2KVKvAVEsqVBW6VAwhVDMjVITyVQAGVZffVka0VvrHW4zIWEtXWN8MWSz1WW9SWWN9WTlDWOO7WGloW7IZVyjpVnf0',
    50: 'VcqBVT5WVKs2VExGVBU2VB09VDKvVIY-VQ7JVZhvVkUZVvocW4rKWEmZWN0HWSq_WW3_WWH0WTjdWOLDWGniW7IDVyn2Vneo',
    57: 'VcwjVT3AVKvaVErgVBU5VAuLVDI5VIQfVQ1iVZa1VkLeVvhQW4f6WEfiWMnSWSk4WVq8WWAnWTU_WOHOWGcKW7IPVygLVnju',
    64: 'VdAaVTKlVL4cVF1BVBYsVAyPVDHbVIOXVP_tVZVWVkNKVvf2W4ndWEioWN1NWStjWWAKWWQGWTvoWOavWH3fW7dNVz7jVo1V',
    71: 'VdFNVTS2VLCQVFAAVBg9VB4GVDKZVIT4VPyEVZWGVkDpVvdAW4bEWEfgWMq_WSqIWV_JWWMbWTlSWOWTWGupW7X-VyxxVnxb',
    78: 'VdP9VTWOVLKpVFBwVBlNVB0tVDL9VIIzVPtyVZGJVk5rVvKfW4RnWEP6WMjMWSg2WVz3WWL7WTqbWOdPWH4wW7l7VzD6VoC6',
    85: 'VdQdVTfJVLLSVFLVVBneVBDlVDQjVIa5VQ1MVZaqVkIzVvgZW4i4WEkOWM_oWSzQWWF-WWbtWU6FWOrDWHK0W7vzVzO-VoK5',
    92: 'VdaSVTdqVLQvVFEaVBn9VB0pVDKUVIIhVPsfVZHbVk4kVvNWW4QiWESlWMisWSkhWV-7WWRRWTtyWOltWHAMW7v1VzIxVoLG',
    95: 'VdcqVTinVLUXVFJDVBosVB2hVDIEVIH1VPmSVZDBVjyPVvIbW4JeWEPxWMfGWSkQWVzHWWSDWTu0WOmVWHAEW7vFVzIRVoLQ',
    99: 'VdfdVTq3VLSvVFMkVBksVB4CVDEjVIH-VPloVZDyVj_UVvIlW4PyWEPqWMoaWSmDWWAoWWYhWUA_WOyPWHX-W88rVziKVobR',
    106: 'VdvcVU0bVLmMVFbeVC2_VBJMVDWUVIVnVPyXVZPUVk5wVvS3W4QvWEXAWMlaWSrHWW55WWbiWU46WO-qWHRUW8C8VzdCVogQ',
    113: 'VdwCVU10VLjbVFXtVBy3VB9mVDK-VIF1VPixVZ2PVjqkVv2TW4BEWE9QWMZWWSYNWVzdWWOaWU1BWOslWHSqW88RVzitVogf',
    120: 'Ve1NVUA-VLp-VFhkVC2EVBKsVDRKVISrVPqRVZK1Vj-sVvO5W4PLWEYKWMs5WSzRWWJkWWqKWUORWPH4WHnwW8UxVzyyVoxj',
    127: 'VeGdVUIgVM1dVFm8VCBUVBIvVDU5VIIhVPllVZ25Vjp7Vv14W48MWEAVWMZeWSfPWW48WWd4WUEZWPBBWHkGW8UeVzzZVozn',
    134: 'VeAjVUKWVLulVFkuVB_YVBFNVDGaVIEcVPYzVY-VVjerVuzZW41WWE6-WMXDWSdPWW79WWegWUNDWPH9WHxYW8eFV-DOVp8t',
    141: 'VeWdVUXrVMFIVFyGVCLhVBSLVDbiVIRcVPsWVZCHVjvuVvCPW4FCWEMJWMh3WSreWWC-WWqdWUQ1WPRhWHzuW8pjV-I3VpNO',
    142: 'VeVLVUfXVMDnVG2fVCHfVBV7VDTaVIPPVPgwVZ5iVjjxVv3eW461WEDIWMbzWSjsWWC5WWl6WUSUWPO7WI1uW8mnV-LnVpJq',
    148: 'VeUzVUb6VM8vVFvcVC8qVBI4VDIeVI9zVPV_VYraVja3VuqEW3zhWE0HWMVDWSZOWW5_WWcBWUMhWPGKWHz1W8gKV-ITVpEg',
    155: 'VecAVUfcVMGsVF-tVCGiVBNqVDOuVIFwVPZMVYyDVjbLVuzDW3_gWED3WMacWSqYWWG1WWx6WUaBWPctWIAxW8_YV-TfVpWH',
    162: 'VetCVUwBVMZhVGG1VCZMVBcIVDemVINtVPjaVYwvVjeHVup7W3y9WD-2WMToWSc0WWAoWWn-WUaUWPa-WIHUW93DV-eTVpcW',
    169: 'VeiGVUoRVMK3VG4aVCGgVBPjVDKmVICLVPQ3VYnxVjN3VuilW3kLWDvOWMK1WSYnWW56WWm9WUXxWPaiWIHAW94gV-fSVpew',
    176: 'Vf5PVV2zVMiFVGIoVCc1VBaRVDdYVIKcVPhUVYvuVjdeVus1W3zaWE4aWMXWWSlkWWHFWW-ZWUjuWPqiWIUSW9MiV-v8Vpz3',
    183: 'Vf7wVVD4VMgEVGMnVCSZVBWDVDM7VI8gVPK-VYexVjH0VuZoW3hjWDqeWMMsWSZjWWCxWWsDWUk2WPlGWIXJW9J0V-yoVpvN',
    189: 'Vf5zVV7wVMhwVGLHVCXzVBXkVDUQVIBfVPTxVYhDVjNqVua0W3kmWDohWMM1WSWVWW9tWWpGWUgxWPjrWIVoW9JrV-zkVpyP',
    190: 'VfAwVV9JVMlaVGKdVCYHVBU3VDPtVI5NVPKvVYaYVjCRVuVTW3ZuWDnyWMETWSaCWW6hWWwTWUgxWPslWIWoW9SaV-zmVq3t',
    197: 'VfQQVVU2VN04VGgFVCptVBpNVDhyVIO7VPcAVYoKVjRoVudfW3ndWDsZWMRnWSeEWWKwWX08WUx6WP-uWIpCW9c-V_I9VqFm',
    204: 'VfIrVVJCVMooVGQCVCXlVBWYVDMYVI5KVPF5VYXhVj4jVuQOW3SZWDinWMA3WSXLWW70WWxdWUmKWPxqWIfaW9ZgV_7CVqAN',
    211: 'Vfb-VVYRVN5eVGdvVCogVBglVDaxVIB4VPREVYZnVjFSVuQoW3c2WDjPWMInWSaLWWGsWX2zWUzcWQ8VWIxZW9r9V_TLVqUh',
    218: 'VfkbVVnaVNBQVGp9VCpCVBmmVDVGVIC6VPGcVYXJVj2uVuMYW3QuWDe-WMBqWSXyWWFtWX4UWV2QWQDuWJ46W9ypV_cnVqc9',
    225: 'VfkkVVfbVNDrVGilVCsNVBfuVDX0VI3QVPFaVYMyVi-HVuBcW3IgWDUkWM0rWSOhWW2oWWxcWUqKWQ5rWIt9W9tEV_TKVqag',
    232: 'Vf-0VW0dVNQeVH0hVC_vVBwFVDdwVIGSVPLbVYXSVj61VuLJW3V2WDgDWMJgWSdpWWRQWXE0WVGDWQPbWJJaWAASV_uYVqsW',
    236: 'Vg5lVV-tVNW7VGyfVD3HVBrBVDg3VICEVPMZVYUhVj4BVuI-W3ObWDcrWM8OWSYnWWDAWX8VWV1yWQLeWJ7YWA99V_l3Vqt7',
    239: 'Vf-uVVw2VNOsVGt9VCwlVBjzVDUoVI27VP7-VYIGViqZVu7UW3CMWDVkWM2EWSWkWWCKWX9oWV3dWQNOWJ8OWA8VV_iSVqoP',
    246: 'Vg6IVW3lVNVsVG_gVD0TVBphVDYsVI3aVPAGVYEaVirAVt_5W3BRWDKoWM18WSNEWWE9WX5rWVBbWQR4WJNbWAI_W01DVr0e',
    253: 'VgI4VWGlVNfIVHAKVD76VByuVDc-VICnVPCaVYOjVisXVu9uW3CaWDVGWM2zWSXHWWH-WXGkWVIPWQe8WJXQWAYXW0CoVrH4',
    260: 'VgJpVWC8VNghVH4MVD6oVBq0VDakVI0vVP8uVYAtVinoVtxfW36VWDHgWLwwWSKIWW7VWX3VWV5XWQQ8WJJPWAKgW008Vr5e',
    267: 'VgWCVWW7VNptVHJtVDABVBzBVDX1VI3eVO_xVY9qVieeVtwoW32mWDKsWM0QWSTxWWMiWXJZWVR-WQkiWJjiWAhEW0R2VrRn',
    274: 'Vgh4VWYzVO13VHOXVDONVC1zVDjsVI6dVP8oVYA3VihgVturW30JWDIqWLxFWSTzWWHeWXM5WVNoWQoRWJfTWAkEW0LOVrSW',
    281: 'Vgf9VWdpVNzNVHRQVDIdVC1rVDbsVI2FVO-WVY08ViVWVtfTW2pmWD0QWLmKWSC9WWAfWX8vWVNSWQihWJmtWAloW0YwVrYk',
    283: 'VghBVWehVNyGVHPAVDEjVB-pVDXNVI1mVOxuVY4mViWVVtpRW2u3WDCyWLroWSNtWWFRWXIAWVQZWQpRWJoBWAqsW0YyVrd1',
    288: 'VgsOVWl8VO6vVHVQVDPJVC5FVDhtVI8VVP5hVYBcVieeVtwRW2-yWDLXWLzKWSZVWWP4WXX0WVcaWR4eWJ_kWB6vW0meVruS',
    295: 'VgzzVWriVOClVHYiVDRDVC2xVDfUVH_-VP0BVX-EViYGVth4W2v1WD64WLtAWSKQWWI7WXIbWVVNWQtPWJvSWAxJW0i9VrkS',
    302: 'Vh2eVW-jVOFYVHeJVDOnVC2-VDVcVHwAVOlVVXqhViENVtX2W2c-WC-kWLhMWSIEWWElWXMpWVaCWR1xWK4nWBAyW0xPVs0p',
    309: 'VhH4VX71VOX_VHqjVDlIVCIAVDuXVI9rVP8MVY34ViaYVtjIW2uNWD94WLtrWSRmWWNrWXWAWVhKWRAsWKAXWBIfW0_iVs6c',
    316: 'VhD-VXBbVOR5VHq_VDZgVCDlVDeBVI0JVOpcVXpiViCWVtOUW2V-WCnpWLZ3WS6LWW9LWXFVWVZdWQ_lWK8WWBCRW11xVs4G',
    323: 'VhPeVXD6VOZfVHphVDfoVCBDVDjHVH_DVOvQVXt0ViKCVtYEW2gQWD2bWLmtWST3WWQCWXfwWVs9WRRGWKQfWBcRW1HJVsQI',
    330: 'Vhg0VXZ6VOp6VI6tVDrHVCOVVDpQVI4uVOwRVXqbViHKVtOxW2bVWCrFWLhiWSExWWMCWXTZWVqzWRIiWKTmWBYVW1OoVsQ0',
    337: 'VhdHVXUOVOkhVH_bVDj3VCDoVDc3VHtMVOeGVXcOVhygVtCfW2HQWChyWLQ9WS8bWW8qWXRHWVjPWRLpWKSIWBh5W1SAVscX',
    344: 'VhrOVXg9VO-QVID7VD_4VCScVDweVI6kVO_XVXsBViMHVtTFW2i0WCzLWLppWSQCWWW2WXhpWW16WRZgWKiFWBrpW1fXVslK',
    351: 'Vhu0VXohVO-EVIHZVDvFVCR4VDjAVH-SVOgTVXd_VhyRVtBCW2HUWCgFWLT7WS9jWWGAWXW8WVtzWRSaWKdcWBnhW1cmVsiP',
    358: 'Vhx9VXhXVO_HVI8cVDv7VCHGVDitVHqpVOgRVXVeVhyZVt5yW2IXWCgWWLWiWSGaWWNEWXimWW2FWRisWKpbWC2aW1nlVswT',
    365: 'ViDFVY7qVPIzVIbOVECDVCi4VDzTVIBFVOt9VXlEVi4TVtCgW2LSWCegWLWBWS9cWWMUWXbqWW58WRgXWKyjWC6eW20tVt3k',
    372: 'ViBcVXyWVPBnVIKVVD_lVCNKVDj8VHrRVOaYVXRFVhn5VsyuW230WCU4WLFyWS3RWW8pWXZ0WVwDWRgYWKqeWC9NW1xSVt8b',
    377: 'ViOWVY8NVPQIVIWeVEDFVCWiVDtNVHw5VOgoVXRNVhqQVswhW25IWCSVWLJLWS59WWFEWXfBWW44WRqNWL10WCLCW28vVtKf',
    379: 'ViNjVYCmVPOzVIaWVEBmVCaKVDtAVH-UVOj-VXXPVhyRVt2cW2H_WCbaWLYDWSD7WWSbWXjmWWDdWRqpWL6iWCIQW2COVtGs',
    386: 'Vic9VYSCVPbzVIm_VEJoVChNVDt8VH-mVOahVXRoVhiBVswEW201WCULWLJqWS9qWWKRWXlIWWBOWRwPWL8HWCQRW2FQVtPZ',
    393: 'ViUHVYEPVPTjVIZ5VEC0VCTCVDm5VHllVOU8VXByVhbwVsgeW1vnWCGeWLE2WS01WWGuWXgnWWBIWRwYWLBBWCSyW2JMVtRU',
    400: 'VikbVYdXVPkjVIy-VETbVCtzVE1oVIAnVOlCVXbVVhrHVs_wW26RWCVsWLOJWSAEWWQgWXpAWWMuWS4XWLQHWCgbW2cJVtix',
    407: 'ViolVYUwVPhcVIiZVEIsVCWnVDnhVHmZVOTJVXCtVhZxVshnW1sOWCHgWLAgWS2LWWG9WXmMWWF2WS4iWLJqWChNW2VTVti9',
    414: 'VisxVYidVPniVIwaVENtVCi2VDprVHs-VOSMVXDgVhXcVseWW1rjWCDCWLDAWR-YWWLXWXk9WWM-WS4qWLUTWCkKW2iwVtno',
    421: 'VjEIVY_BVQ8rVJBdVEhkVCvIVE1RVH_GVOYBVXHsVhWjVshFW1nbWCHRWL9kWS63WWLUWXvhWWRGWSKAWLcGWD0JW2saVu4r',
    424: 'Vj4zVYulVP_mVJ6oVEbQVCtwVD-lVI0tVOXqVXK9VhWfVshxW1mHWCE_WL6PWS0fWWG-WXp9WWN9WSEMWLZbWCx-W2r8Vu1I',
    428: 'Vj1RVYoYVPxrVI_aVEW9VCjiVDtIVHoJVOObVX26VhNAVsP6W1eAWB-QWL0PWRpsWWCgWXfQWWJWWS5_WLVwWCpnW2nYVtvE',
    435: 'VjHDVZ5qVQAJVJGyVEi2VCzGVE0KVI11VOVEVXGrVhSZVseCW1k7WCE5WL8zWS4-WWPXWXz7WWawWSSTWLqOWDBvW36nVuHN',
    442: 'VjSNVZ75VQG5VJBzVEhVVCnXVDwNVHltVOL_VWz8VhIDVsLQW1aEWB_LWL11WRyFWWKtWXwQWWZmWSU3WLrWWDF4W386VuJ6',
    449: 'VjPFVZEVVQEkVJJqVEfDVCtkVDrgVHpIVOEnVWyzVh97VsGuW1QEWBsbWKtYWRn9WWDFWXlZWWVLWSMFWLrtWDCTW3DuVuLu',
    456: 'VjmyVZSLVQaOVJV6VExsVD03VE4mVHvSVOQgVX35VhIsVsPRW1Z6WC2vWL0cWS0uWWMzWY1lWWgFWSgWWM2gWDYsW3SgVujc',
    463: 'Vjd_VZPqVQRRVJSMVEofVCy9VDxLVHpXVOHYVWwFVhAHVsDKW1RVWBqhWKwAWRntWWH9WXoQWWaAWSQPWLxOWDHMW3K0VuRI',
    470: 'VjpqVZY_VQcCVJZbVEwKVD0GVDzjVHpgVOD5VWt5Vh0RVsA1W1GoWBr1WKpsWRurWWInWY1GWWk8WSlrWMAtWDg1W3asVupb',
    471: 'Vjs7VZeOVQdlVJetVEyhVD6EVE2RVHwSVOKvVWzKVh9tVsC_W1OsWBp4WKucWRomWWKRWXv6WWkOWSdqWMBsWDZkW3duVulP',
    477: 'Vk1oVZkUVQpDVJjkVF65VD7-VE89VHtsVOLzVWt7Vh7bVs6jW1MIWBmQWKuKWRrZWWNxWY1RWWrVWSpVWMKSWDlfW3lLVuum',
    484: 'Vjz-VZmSVQkOVJkOVE_FVD6-VD-MVHrBVO9EVWosVgufVs08W15lWBcSWKd3WRenWW7gWXqHWWeSWSfVWMCtWDhXW3j_Vuwt',
    491: 'VkGXVZuIVQyhVJn4VF8HVD4UVE3cVHl_VODgVWl2Vg_4Vs1RW1FQWBkcWKpuWRtAWWMrWY71WWvCWS-kWMUcWE1eW401VvGZ',
    498: 'VkJIVa5DVR0VVJznVFAcVDEMVE2ZVHrYVO9SVWmDVgvkVr_9W1BLWBgLWKoNWRn-WWNAWY0sWWvTWSspWMTMWDtmW3z1Vv5R',
    505: 'VkPuVa4BVR6PVJwiVFC_VD75VD-uVHepVNzqVWUIVgcFVrgpW0pdWBOgWKSgWRdbWW8XWX_rWWpkWS-cWMVJWE5rW43iVvMO',
    512: 'VkXgVaGRVRFFVK98VFP8VDOUVEFHVHx_VOHnVWmsVgyDVrwwW1A1WBbtWKnyWRoFWWRsWY8yWX5fWT7JWMmpWEEQW4KcVvTh',
    518: 'VkfBVaGoVRIxVK4pVFNRVDElVE7lVHjfVO5KVWWUVgj1VrhTW0wEWBPDWKZXWRfwWWHDWY5zWW_iWT8rWMkEWEIKW4JTVvYH',
    519: 'VkcHVaJFVRFPVK72VFJzVDIJVE5CVHpWVO3KVWdBVgfzVrmCW0r5WBPoWKS2WRbdWW7qWX-LWWsBWT14WMcsWEDIW4FaVvX3',
    526: 'VkkfVaLbVRKhVK5JVFKvVDBIVE2LVHe7VN_LVWQsVgeKVrczW0tlWBMYWKZVWRfYWWJyWY8iWX5_WTFaWMueWET1W4XFVvlK',
    533: 'Vk-fValIVRdEVKVqVFcDVDZJVEF9VHxRVO6RVWeuVggxVrmJW0uOWBSGWKaaWRjDWWMkWYBMWX9yWTHgWMz5WEVKW4cGVvoe',
    540: 'Vl0jVad_VRelVKMqVFaqVDM3VE8XVHeVVNvWVWHBVgOCVrMmW0YAWB55WKEeWRRhWW4EWY0eWWylWTDoWMrvWEXaW4amVvve',
    547: 'Vl2SVanXVRfXVKWiVFdGVDYSVEEvVHuCVO4_VWZPVgf3VrgEW0u5WBOzWKeAWRl7WWUwWYIeWXMLWTTJWNCfWEjZW4tYVw1h',
    554: 'VlJ9VaxFVRtCVKc4VFlIVDYCVEFoVHoWVN-CVWPYVgR9VrU8W0bDWBCVWKJaWRaLWWCTWYB_WX99WTScWN5gWEoTW4r7Vw9l',
    561: 'VlDcVarmVRkPVKT0VFZOVDLcVE2OVHZEVNnSVW8jVgGlVrDQW0URWA-QWKHSWRRUWWFnWY9dWXHuWTVoWNIHWEuSW52sVwF3',
    565: 'VlYMVbCUVS6bVKrjVFxQVDj4VELxVHsmVNzcVWNXVgLhVrOnW0V9WB8SWKHjWRbfWWHYWYJ_WXKvWTg4WNLsWF2_W576VwQv',
    568: 'VlYoVbG3VS76VKvSVFyTVDnoVEOhVHzGVO2jVWVUVgSZVrWQW0bjWBD1WKLGWRbSWWHPWYGQWXJSWTcYWNMDWF2CW5AfVwT5',
    575: 'VldIVbBwVS7aVKmfVFu8VDZTVEFmVHfXVNsJVW8LVgEfVr9OW0O1WAvCWK91WRMiWW7XWY6gWXBzWTWRWNGzWE-rW585VwSJ',
    582: 'Vlb2VbImVS5KVKtLVFrGVDfQVEBgVHklVNo3VWDfVgCYVrFdW0QdWB1SWKI3WRXoWWMMWYJvWXTmWTjfWNY4WF9XW5LcVwYt',
    589: 'Vl_QVbaWVSWEVL88VGDlVDsXVEUhVHs0VNz2VWEIVgEHVrB5W0KhWAxXWK9GWRU_WWFpWYM-WXSRWTtAWNcLWFO1W5TeVwpk',
    596: 'Vlm-VbRVVSERVKx-VFvSVDe4VE9wVHcQVNfzVVz_Vf-EVqwHW08UWAh8WK18WRGRWWBqWYBvWXSwWTmKWNgqWFKWW5aOVwn8',
    603: 'Vm4CVbi8VSYpVLDFVGDyVDw0VETlVHvQVNy7VWI7VgDkVrEtW0KfWA-SWK9WWRWbWWGiWYOwWXW5WTyRWNl4WFYqW5iEVx3v',
    610: 'VmEfVborVSdKVLCpVGAoVDmqVEJXVHeMVNk7VVywVg0nVqwVW0BoWAk7WK4wWRLHWWFbWYIQWXXxWTvgWNpBWFY2W5nHVx31',
    612: 'VmA3Vbt0VSdKVLKbVGChVDuwVEJKVHj7VNepVVxuVfrnVqpGV_zcWAZZWJuaWRCDWW8_WYDXWXWzWTuEWNrGWFY6W5p_Vx3I',
    617: 'Vm6mVbnuVSY8VLDhVG5zVDnTVECAVHcwVNYXVVukVfneVqqDV_y6WAdeWJuYWRGzWW8vWYHSWXWCWTx4WNpjWFa5W5ndVx4R',
    624: 'VmYzVc6xVT0YVLa0VGalVE6RVEehVHteVNvxVW3QVg26VqvYW05zWAgkWJ-lWRLwWWFdWYRIWXgYWUAWWO2JWFtSW62_VxPK',
    631: 'VmLfVc0QVSkLVLPVVGFeVDw5VEIoVHgtVNaqVVsOVfkyVqhhV_rkWASLWJoQWR84WW7BWYEfWXb1WT_LWN-zWFjuW612VxGj',
    638: 'VmbzVc8bVS-3VLW1VGSzVD-RVETcVHkRVNjrVVx7VfsKVqolV_xOWAbrWJshWRJOWWB2WYRbWXf-WUEZWO6MWF_wW6BDVxb2',
    645: 'VmrmVcRZVT9CVLiuVGX0VE2wVEQRVHgaVNbxVVn9VfjuVqccV_sjWARvWJt-WRE7WWH_WYRXWXrlWUJ7WOLkWG7IW6S6VxiY',
    652: 'VmjxVcL7VT5HVLfBVGUAVD_mVELTVHcDVNSZVVh0VfVlVqUxV_b3WAInWJaeWR43WV_JWYHvWXbEWUB6WO7rWG1jW6G-Vxfz',
    659: 'Vn1LVcabVTOVVLuSVGnGVEDpVEe3VHnbVNk0VVp7VflxVqb4V_qgWAPcWJqmWRDyWWGvWYVQWXuLWURBWOS1WGJ9W6c9Vxy5',
    666: 'VmyVVcbVVTGEVLs4VGbuVE9BVEQCVHhyVNUsVVjWVfW-VqVRV_d8WAJMWJfcWR7JWW8mWYP8WXooWULRWONYWGD1W6WbVxqE',
    673: 'Vn6CVcbsVTPAVLqgVGiNVE4eVETMVHZrVNUFVVYTVfSSVqJFV_VOWA8oWJX3WR1KWW2kWYPcWXnoWUSlWOSFWGPpW6fVVy3X',
    680: 'VnLmVczoVTd2VM9uVGseVELYVEZVVHluVNXDVVfiVfTuVqM4V_XFWA8sWJbPWR1aWWBKWYS_WX_cWUadWOkeWGbMW6-UVyGX',
    687: 'VnLeVcthVTdzVM4KVGtOVEFhVEYLVHfDVNSiVVYXVfLVVqFLV_LlWA2zWJNYWQxIWVx2WYL1WXjXWURrWOT0WGULW6lxVyDc',
    694: 'VnVhVd2-VTknVMBJVGvQVEGuVEW2VHasVNOPVVQeVfIoVq7gV_O6W9_OWJWXWQz-WWA9WYTdWY0wWUe9WOoTWGh-W75mVyQu',
    701: 'VndhVdDMVTtGVMLpVH1IVEQtVEbUVHjSVNPuVVXcVfGjVqE3V_KxWA68WJURWR50WW9zWYarWY2MWUl6WOptWGnUW751VyTf',
    706: 'VnhFVdBSVTuoVMG-VG_MVEIPVEW7VHYHVNI1VVKqVf6DVp_gV_7DW9soWJErWQskWVwqWYPBWXrfWUdNWOhOWGkpW71sVyWC',
    708: 'VngIVd9fVTuuVMGHVH0YVEHeVEXLVHV5VNHjVVDoVf4AVprlV_3_W9h_WJBbWQkEWVwIWYMAWXw0WUgAWOpsWGqVW7B8Vyaf',
    715: 'VnmkVdORVT-jVMUkVH6HVEWrVEduVHm3VNPvVVWCVfE6Vq7gV_FEW9xhWJO1WQxbWW81WYYBWY90WUs8WP4GWH1dW7SsVyov',
    722: 'Vn-RVdRqVU9zVMUYVHDJVESKVEgiVHeWVNPaVVNmVfB9Vq04V_9jW9rrWJGIWQt6WV-KWYU2WX-0WUoGWOvNWG-uW7JkVyoa',
    729: 'VnzVVdXzVU6pVMWyVH5AVEOEVESFVHSrVN6EVV6FVetQVpixV-wtW9bgWJ9TWQifWV_ZWYPvWY5vWUpZWP65WH3uW7Z2Vyuy',
    736: 'VoFMVdnMVUSBVMpNVHSbVEiCVEonVHmKVNOfVVNfVf3tVpy6V_2BW9pqWJEUWQxEWW54WYffWYCgWV3fWPCnWHIpW7e3Vz5o',
    743: 'VoF9VdmcVUQzVMnFVHPUVEcYVEiOVHaaVNDpVV4MVeqgVpYXV-m7W9NOWIxmWQWBWVqoWYK9WY2DWUsBWP9pWHD1W7hkVz5Q',
    750: 'VoF4VdpBVUNIVMmrVHJpVEcOVEdZVHeIVNCHVVE5VetqVpnuV-u5W9gIWJ85WQqjWW4OWYenWYI_WV9SWPPWWHTuW7ueVzJ8',
    753: 'VoVUVe4fVUc1VM-lVHTUVEjzVEgsVHfMVNAtVVB5VerFVpk5V-t5W9doWJ9UWQq3WW7mWYfiWYNsWVC3WPWLWHYyW82FVzR4',
    757: 'VoevVe4ZVUl3VM-FVHcIVEj2VEpTVHdhVNICVV82VevTVpfXV-snW9Y5WJ4OWQk0WV_hWYahWYFPWV8_WPP6WHXbW7yEVzQH',
    764: 'VoUoVe3JVUZFVMw5VHMTVEaEVEUhVHQ2VMvpVUsxVeWQVpMdV-WRW9FiWIpsWQUlWVsMWYQAWYD3WV3oWPSaWHW-W83NVzS8',
    771: 'VomiVeEtVUveVN9tVHmQVEswVEv_VHjuVNJmVVAXVesRVpfEV-nGW9XQWJ09WQlmWV_WWYgNWYKFWVJFWPYvWHm8W89iVzhO',
    778: 'VorLVeO7VUxRVNFpVHkYVEuNVEqJVHfcVNA7VU_9VefSVpNYV-ZXW9DDWIqlWQTAWVuEWYRpWYHTWV91WPZqWHfGW8DVVzdG',
    785: 'Von9VeGTVUq2VN5AVHaPVEiJVEeAVHUDVMzEVUt9VeTwVpLIV-RiW9HGWInyWQcZWVwgWYf7WYNuWVOMWPhUWHtsW8IxVzo7',
    792: 'VpDjVehEVVHpVNVVVI0RVF2kVF0CVHjvVNFoVU-jVegPVpLKV-YRW9CJWIqhWQWmWVypWYcUWYSzWVRKWPrwWI13W8Z6V-09',
    799: 'Vp4LVedGVV5PVNNsVHljVEt7VEg-VHVbVMtqVUm2VeIiVp7xV-DNW90DWIZNWQLwWVm4WYU5WYLbWVMnWPpgWI0aW8aVV-2O',
    800: 'VpBnVefVVVCUVNOyVHrBVErjVEkgVHRGVMwIVUfVVeKmVp1BV-G7W8xsWIdFWQKaWVpkWYTmWYNAWVLNWPokWHzUW8Y0Vz-F',
    806: 'VpGIVehWVVJgVNTwVH_NVEzwVExLVHcdVN8WVUtfVeZ1VpGnV-SFW9AhWIl-WQXWWVvmWYf6WYRuWVVxWPtFWI8JW8dSV-Ae',
    813: 'VpUAVf1IVVUHVNl8VI4EVF8RVEvEVHfaVN0NVUp-VeO9Vp90V-J1W92OWIiAWQS7WVycWYduWYa5WVY7WQ2YWICOW8ppV-F5',
    820: 'VpLYVemqVVKbVNTYVHvQVEs9VEinVHMqVMnEVUX7Ve5pVotZVz_JW8qyWIQCWQKAWVkfWYbYWYQ_WVaWWPz7WIH2W8l1V-Ic',
    827: 'VpgaVfAxVViRVNw1VIJBVFJ5VF79VHnTVNAOVUs8VeRUVp4bV-FkW8v_WIbZWQKMWVtoWYbxWYcMWVfXWQDwWISBW95NV-YH',
    834: 'Vpg-Vf9GVVcQVNnsVI72VF6SVEsbVHZJVMtHVUfAVe80VownVz-EW8pnWINXWQH8WVjoWYbFWYV_WVgnWQ9-WIUqW92jV-bp',
    841: 'VpmMVfAmVVjnVNpqVIDXVF5kVEwfVHUrVMvmVUYSVeAmVoqKV-1zW8lJWIRdWQF6WVnRWYazWYYqWVhHWQCQWIVxW95vV-e2',
    847: 'Vq5GVfUNVW0TVO3tVIRMVFGQVF1pVHZxVMwBVUZRVe68VopVVzxRW8lZWINPWQJJWVooWYksWYh6WVxZWQROWIrvW9PWV_17',
    848: 'Vq5sVfeBVW1iVODuVISAVFPMVF1BVHgXVMt_VUdAVe3-VorAVzxZW8mLWIQsWQJsWVuVWYkRWYmRWVudWQUAWIlqW9PTV-uz',
    855: 'VpyvVfMcVVwSVNz_VIMRVFAOVExhVHRHVMmtVUMsVdvSVoZwVziwW8VQWI9OWQ4wWVcmWYYwWYWkWVmrWQHCWIgoW9ERV-qz',
    862: 'Vq5LVfdEVW2mVOEqVIVMVFRmVF5rVHijVMyGVUceVe5SVom4Vzu-W8daWILcWQAZWVpvWYeXWYlyWVuSWQZEWIr4W9Z1V_1V',
    869: 'VqHZVfhMVW8iVOC2VIUKVFJEVE_AVHXTVMoBVUS8VdvsVoefVzjQW8aOWIB-WQBmWVjWWYjUWYivWW07WQYPWIzuW9YOV_9M',
    876: 'VqG5VfhsVW8aVOCZVIT2VFGpVExJVHQ9VMhYVUFTVdngVoOXVzbeW8JUWI54WPxkWVdWWYVpWYenWVr_WQXSWIthW9b7V_6R',
    883: 'VqbcVg5CVWTwVOaEVIl2VFaQVF74VHeWVMm3VUPGVdmgVoViVzYYW8PxWI3WWQ3TWVgSWYgwWYnmWW5pWQm6WJBqW9tSV_TB',
    890: 'VqZFVfxvVWShVOSeVIlsVFUCVF9NVHX_VMoOVUHSVdnoVoMnVzXQW8GqWH_pWPx7WVafWYZFWYg0WVzoWQcqWJ3LW9j-V_L7',
    894: 'VqTUVfy-VWJhVOQ8VIZGVFP7VEwcVHSgVMZlVUDTVdb4VoK3VzNgW8EQWHvQWPumWVY6WYYEWYhyWV_lWQj1WJ8SW9snV_Rf',
    897: 'VqZmVg4zVWRHVOYzVIh1VFWvVF0sVHXTVMdLVUEYVdcJVoIWVzOZW8DGWHysWPwxWVfKWYdvWYrUWW6jWQsNWJEHW9-KV_Vc',
    904: 'VqtwVgF6VWiwVOfsVIv3VFaIVFBAVHY8VMkBVUDzVdfvVoIVVzPqW8G3WHzqWQ1sWVhaWYoWWYvaWWJ-WQy1WJSpWA4LV_jP',
    911: 'VqpJVgHSVWePVOhLVIooVFY-VF2RVHSiVMZ2VU3GVdSpVo2BVzBZW7xEWHlCWPgxWVU5WYT3WYlnWW3VWQuHWJJ1WA76V_fU',
    918: 'Vq-wVgPuVWo_VOo9VIxFVFe4VF84VHX0VMc5VU8eVdULVoACVzCpW85bWHmhWPsIWVWJWYf8WYppWWHHWQ_5WJZaWAGzV_yq',
    925: 'Vr8RVgXVVWyDVOv5VJ3UVFixVFF6VHYzVMiZVU7zVdb1Vo7yVzJzW83GWHtvWPqsWVcsWYeDWYudWWFHWR1FWJVCWAGbV_sR',
    932: 'Vr4mVgZyVWt-VOvPVIxTVFeYVF0GVHO0VMLVVTseVd7xVnpHVysEW7lZWHVaWPcTWVO6WYXXWYpnWWFkWR3SWJaGWALyV_z0',
    939: 'VrMzVgjxVXB8VP4XVJFtVFqTVFLVVHZjVMgHVU19VdQWVnyRVz5LW7uKWHhdWPmdWVZ0WYkRWY_NWWVDWRFvWJqfWAYCW0CC',
    941: 'VrP5VgpAVX7sVP4kVJ8UVFnnVFDUVHXWVMbUVU1AVdQ3VnzJVz7pW7u3WHk_WPk2WVbgWYfwWZ1iWWR3WRK7WJpJWAfkW0EJ',
    946: 'VrNVVgsiVX9KVPAfVJB8VFtTVFDXVHZ7VMVLVTyFVdD3Vno2VyrzW7eTWHRoWPTdWVKoWYRqWYrDWWGzWRCTWJjeWAcJW0CK',
    953: 'VrRIVgn8VX9nVP0-VJ7LVFgTVF6xVHLzVMOVVTojVd85Vnl6Vyq7W7iyWHTFWPdsWVOeWYfHWYwVWWViWRI2WJy5WAg-W0PL',
    960: 'VrklVh9jVXTbVPOMVJOYVFzLVFJoVHYWVMXRVTv5VdFGVnnQVyyCW7k5WHdNWPfKWVZxWYhFWZ5tWWXmWRT7WJ-9WAs4W0Ra',
    967: 'VrgRVh6BVXQ5VPK1VJIbVFrfVF7xVHLSVMDHVTcOVcpSVnRMVySfW7OJWH9aWPNYWVCSWYVuWYsUWWTJWRL0WJ_WWAp3W0Wr',
    974: 'VrmkVh8ZVXX-VPPGVJUFVF-UVFO3VHWtVMW_VTofVd8-VndDVyneW7Z8WHS1WPXVWVS1WYffWZ44WWd7WRXYWK90WA-bW0er',
    981: 'VrxyVhQHVXgGVPdJVJYIVG8SVFNSVHdCVMS0VTrKVc_xVnbGVybPW7SNWHEzWPODWVHZWYXeWY-jWWZAWRXvWK9xWB3lW0k7',
    988: 'VrvqVhCrVXZqVPKuVJMrVFnFVF88VHDKVMBGVTSTVcmOVnHCVyOvW7F-WH6_WPKbWVEgWYbNWY_wWWhMWRb7WKJBWB6KW0rA',
    995: 'VsEfVhibVXxzVPrvVJk8VGFHVFRKVHbGVMO-VTioVcvRVnQ7VyVKW7JGWHCpWPKjWVLDWYaqWZ86WWiBWRm3WKNCWBL7W0zO',
    1002: 'VsIHVhfdVX-9VPmtVJjSVG71VFL_VHPPVME4VTUQVcfYVnBhVyCwW77WWGw-WPCkWV5oWYWaWYyJWWiAWRerWKRnWBIPW15u',
    1009: 'VsDgVhcsVXvgVPkrVJgGVG69VFLCVHPJVMGHVTUaVclNVnCOVyMZW79PWH7CWPFtWVIqWYaRWZ8ZWWlJWRooWKSOWBPAW13F',
    1016: 'VsZ8Vh-XVYDnVQ3yVJwfVGNHVFVrVHbnVMK3VTcbVcitVnH3VyGLW7C9WH0eWPIoWVFmWYgRWZBSWWw3WRxNWKhJWBb3W1KE',
    1023: 'VsRhVhkpVY2kVPmNVJhwVF_uVFEiVHBaVM29VTBGVcRNVmsXVx_qW6r0WGogWP28WV6LWYXWWZ7DWWtbWRx9WKiJWBcOW1Kv',
    1030: 'VsdfVi6GVYJ5VQB4VJ-JVGRfVFWlVHcGVMHzVTYfVcdmVn8HVy8IW6_RWGtDWP5MWV7xWYW1WZ8KWWrpWR_KWKkaWBm4W1TA',
    1035: 'VsoSViCcVYPwVQDCVK0kVGPiVFUlVHX3VMCBVTRpVcVsVn2cVy1XW6-NWGr5WPAuWVC3WYhWWZHBWX4EWS9EWKy5WBtXW1d9',
    1037: 'VsuEViB3VYU8VQ9eVK2qVGJyVFVPVHQCVMCkVTLVVcWmVmzXVy1JW6vbWGngWP56WV4VWYaBWZ6vWWyvWR_gWKtmWBoHW1eA',
    1044: 'VshfVi6wVYJZVQ6-VJupVGGXVFKKVHJxVM0KVTBlVcKcVmnMVxu3W6jZWGjHWOxFWV4cWYSgWZ9RWWsJWS28WKm5WBotW1UH',
    1051: 'Vt86ViWMVYmrVQVfVKJoVGbxVFfcVHa3VMDCVTL-VcOaVmtQVxs6W6ozWGgeWP3pWV6CWYgrWZHTWXAHWSFnWL8FWC3cW1uC',
    1058: 'Vs_tViM1VYcEVQJRVK7nVGO4VFTJVHKQVM1JVT49VcDJVmZqVxhRW6UvWGWUWOn8WUzMWYRmWZBlWX05WSE0WL2DWC4qW1pw',
    1065: 'Vt39ViUvVYg1VQSRVKBeVGXsVFXNVHVtVM5iVTHXVcHrVmnoVxlGW6ghWGYfWOutWUzwWYVyWZBqWX34WSFQWL6rWC9CW1y6',
    1072: 'VtREViiAVYy9VQYQVKLeVGV7VFZYVHLsVM34VT4bVcEgVmc-Vxk9W6b1WGaGWOvcWV2dWYcuWZJrWXErWSQCWLLJWCLHW2Ak',
    1079: 'VtDmVig7VYoJVQYpVKCmVGV6VFOvVHJ1VLrJVSzOVb-1VmQwVxSjW6LxWGLKWOgHWUtjWYOhWZC6WX1jWSKBWL91WCG5W1_G',
    1082: 'VtFmVif-VYpiVQYcVKEUVGVAVFR0VHIVVLsYVSwZVbyrVmLJVxPSW6FdWGIOWOcIWUtXWYP6WZG2WX6sWSRuWLHFWCPZW27v',
    1086: 'Vtb2Viw7VZBNVQpVVKbLVGk9VFjzVHU3VM3rVT3HVc4bVmT7VxT3W6N_WGJZWOlZWUttWYZ5WZGiWXHiWSTgWLTSWCT1W2M5',
    1093: 'VtYVVixHVZ5qVQolVKV8VGjIVFfEVHTSVM1AVT1bVc3kVmPDVxTfW6I2WGLCWOeRWUvwWYRqWZJ6WXB2WSWlWLNjWCWyW2H2',
    1100: 'VtZ9ViwYVZ5MVQlyVKRtVGdxVFYPVHMXVLtBVSwqVbtdVmJ_VxGtW6EsWG9OWOdMWUmzWYTaWZENWXGEWSW2WLVrWCYcW2QP',
    1107: 'VtwAVjD5VZPWVQ-EVKgcVGlXVFhAVHM-VLxRVSruVbw2VmC_VxJuW69PWGEgWOcJWUvaWYYKWZQvWXQWWSmKWLjxWCrHW2fl',
    1114: 'VtpgVjFYVZM6VR2RVKdTVGp2VFbYVHODVLo3VSqQVbjSVm8eVx5MW61fWF_UWORaWUhGWYMIWZEWWXE_WScYWLaoWCktW2aM',
    1121: 'Vt-TVjGvVZW9VR2XVKlrVGmnVFhPVHIzVLqwVSimVbjTVm0eVx3aW5yJWFzmWOQvWUgyWYQ2WZFuWXL_WSfsWLkRWCqeW2mU',
    1128: 'Vu4EVjUqVZaBVRF9VKouVGyaVFkBVHU6VLuQVStMVbowVmACVxBdW64SWG8SWOXtWUtZWYW5WZT4WXQtWSryWLn3WCzyW2lr',
    1129: 'Vu4bVjMhVZbaVR8UVKs9VGtxVFp9VHR0VLzNVSqTVbrcVm7FVxBFW62KWG5dWOXcWUqCWYYmWZR7WXWZWSryWLuoWC_BW2u3',
    1135: 'Vu6EVjPlVZazVR7fVKmKVGnLVFcbVHEZVLgIVSZUVbTZVlpXVwn5W5kZWFjNWOGcWUWxWYMRWZEIWXPtWSlIWLs_WCyVW2ul',
    1142: 'VuGnVjdQVZljVRL8VKwSVGzRVFl_VHODVLpDVSfkVbcGVlsBVwvtW5kmWFsTWOGTWUhDWYOTWZR9WXVZWS_BWL_nWDEXW32v',
    1149: 'VuPZVjnfVZtwVRU7VL0tVH4nVFpOVHTlVLogVSjwVbY6VlvgVwpJW5n3WFkEWOGOWUXvWYM7WZHyWXSxWSu8WL_yWDBnW384',
    1156: 'VuP-VjhcVZsIVRKjVKwqVGrmVFeUVH9JVLazVSMtVbKyVlaEVwfLW5WkWFeVWO6vWUWAWYIfWZIxWXT8WSwZWM1lWDEwW3A9',
    1163: 'VubzVk0tVa3NVRgYVL7gVHAmVFpEVHR-VLibVScdVbQMVlnaVwlAW5j1WFnMWOJNWUimWYVWWZX_WXfbWT9aWMCLWDReW3Hw',
    1170: 'VugZVjylVa8cVRboVLB0VH2vVFoGVHF3VLbEVSJmVbB5VlPRVwOCW5IYWFMRWNxlWUK0WYFNWZG9WXYuWT0CWME5WDPEW3O_',
    1176: 'VubfVjxNVa1XVRZ4VL3dVH1EVFiZVHGSVLYSVSOiVbBNVlX0VwRVW5RJWFRiWO3DWUOuWYJZWZI_WXZcWT0kWMCNWDO4W3MB',
    1177: 'VuaqVj-1Va1WVRcmVL4iVH5XVFl1VHKUVLcLVSR6VbGFVlWdVwWYW5OFWFWxWN_nWUVIWYI1WZRNWXarWTBKWMG0WDaNW3Qk',
    1184: 'VuzbVkHPVaO6VRsMVLMWVHGJVFx9VHRSVLjDVSWCVbIWVlbDVwUwW5SiWFSMWO3WWUP4WYLLWZLlWXffWT8fWMOMWDbxW3dY',
    1191: 'Vut7VkA5VaEqVRhHVL8dVG_RVFeDVH49VLMsVS4KVaycVl9EVwDWW54rWFHAWNo5WUK5WYAwWZMBWXb0WTCuWMMtWDhaW3c2',
    1198: 'Vv2uVkSfVaVAVS1FVLQvVHM7VFufVHOpVLYQVSLIVb2TVlMHVwFHW5EuWFHzWNwyWUMqWYKMWZRnWXlEWTK8WMXNWDpGW3mm',
    1205: 'VvEnVkWsVah2VS5EVLbyVHO2VG0-VHM5VLc5VSCdVb0fVl8mVw8aW4_YWF8WWNjfWUDqWYBvWZLvWXibWTIsWMaDWDshW3tz',
    1212: 'Vv0XVkPyVaO_VRw_VLHWVHCwVFj6VHD8VLLhVS7UVarUVl70Vw3GW506WF97WNllWUI-WYERWZT1WXkIWTPUWMZuWDwoW3qP',
    1219: 'VvVFVkmEVatUVSFEVLifVHSpVG2sVHNvVLb4VSDqVa-QVlAlVw6fW53IWF8iWNpnWUHDWYKkWZT0WXueWTTpWMpPWE4CW48Q',
    1223: 'VvJgVkiuVahqVSC1VLWzVHP8VFszVHJ5VLPeVS7vVarOVl4PVw1rW4zWWF8-WNlZWULmWYHyWZZQWXrhWTZRWMkYWE7QW411',
    1226: 'VvNgVkjQVaiTVS88VLShVHG9VFkHVH63VLE8VRuFVaeCVkpQVvppW4ikWEx2WNWcWU9cWY6xWZRmWXm-WTYHWMmZWEC3W47M',
    1233: 'VvRZVkoNVasOVSILVLgkVHTbVFzBVHKLVLQQVS5RValVVk-PVvrbW4qwWEu9WNbUWU3RWY8pWZJqWXnCWTQOWMnWWE6IW4BF',
    1240: 'VvmvVl3gVb8IVSVkVLuIVHbtVG6PVHMvVLVyVS2WVaohVku9VvuhW4l3WEz3WNZ8WUBAWYBIWZUPWXtgWTc-WMwAWEKEW4LE',
    1247: 'VvWcVkv0VasUVSJRVLakVHO8VFmYVH7vVL7uVRpOVaQRVkgUVvYyW4ZiWEiFWNQsWU0hWY6SWZPPWXrEWTaZWMtlWEGgW4G7',
    1254: 'Vvy2VlCoVbJlVSdqVM1UVHgdVGAgVHMLVLTQVRySVafUVkk0VvghW4ZgWEkdWNRDWU28WYB5WZU1WY05WTkYWN8oWEVvW4bM',
    1261: 'VvwPVlIYVbD_VSf7VLs_VHd8VFx_VHF4VLCkVRp0VaPXVkZTVvTgW4OmWEbrWNH7WTz_WY3FWZUmWXy0WTq8WN8oWEfGW4e9',
    1268: 'VvvLVlBaVbFfVSZ_VLvxVHZJVF_YVHCqVLGHVRorVaS5VkbWVvUHW4SSWEZcWNKUWTt_WY47WZK-WXwAWTe6WN5_WETZW4c_',
    1270: 'Vw06VlIBVbN5VSgqVM0mVHe4VG3nVHCsVLGfVRjJVaPoVkSrVvSPW4KaWEaiWNGaWTzFWY59WZTOWX-2WTn2WN9UWEaWW4dd',
    1275: 'VwH4VlbtVba2VSvfVM8LVHnaVG6lVHIRVLHSVRn4VaR3VkWTVvW4W4P2WEhIWNLsWU5sWYAzWZdbWY5MWTzkWNJjWEqbW4rM',
    1282: 'Vw4ZVlQlVbP9VSlrVL-QVHebVFxuVH94VL3GVRcJVa8TVkKMVvAPW4CaWELUWNAUWTo-WY2JWZPOWX__WTpGWNGFWEh8W4nW',
    1289: 'VwIKVlalVbf9VSxnVMFpVHqjVGDJVHIvVLIsVRhUVaK6VkJbVvGRW46nWEMUWN3HWToPWX-8WZRUWY1pWTwhWNOMWEtkW4zj',
    1296: 'VwPPVlnPVbgtVT31VMCYVHuBVG6zVHL0VLBQVRjgVaD7VkM8VvBGW49LWEKRWN68WTqIWY1xWZWtWY6hWU2JWNUJWF0lW54p',
    1303: 'VwQkVlg9Vbj0VSx5VMClVHjIVG3pVH72VL5gVRUtVa6HVk97Vv3-W3_bWECfWM_aWThbWXzEWZNHWY2-WTukWNRkWEuIW53b',
    1310: 'Vwj3Vm4kVb-8VTIeVMO-VH-HVG8hVHFTVL3EVRV0VZ_UVk3eVuziW3uxWEBZWMy6WTnrWX_2WZaQWYAGWUBVWNdfWFEtW5IJ',
    1317: 'VwhoVl_MVb_tVTG7VMTAVHznVGDFVHFYVL5YVRUaVZzdVk2cVutZW3tsWE2UWMx1WTdSWX-FWZQYWYAQWU2wWNeyWF7QW5KY',
    1324: 'VwgoVl_HVbz_VTFKVMQlVHxzVGAbVHBjVL2aVRNSVZwDVjt_Vup_W3hDWD_OWMl3WTcEWXrmWZSdWY6QWU8RWNePWFFSW5Lx',
    1331: 'VwuaVmEfVc86VTQcVMWrVI4CVGDXVHJ1VL3lVRVuVZxDVk2hVus6W3toWE3dWMyoWTj9WY49WZbsWYK_WUImWNsaWFP9W5Yd',
    1338: 'VwyUVmBlVcBoVTMFVMXxVHy1VGAlVH5nVKyxVRDpVZmzVjjbVufHW3YFWDrGWMfOWTVCWXrGWZQjWYBrWUC6WNozWFN3W5Yp',
    1345: 'Vx18VmQJVcHRVTaQVMboVI7KVGAbVHCtVKuJVRGfVZfBVjiUVuWQW3TxWDjlWMZkWTRBWXmzWZRtWYBYWUJDWNtiWFZ5W5hX',
    1352: 'VxFXVmVxVcWZVTgoVMrhVIEFVGQPVHJYVL6UVRMfVZqPVjoLVueHW3axWDp3WMiQWTUbWXw1WZS-WYJHWUI6WN-8WFXQW5oU',
    1359: 'Vx8PVmVaVcOLVTeEVMg2VI71VGA9VH6SVKoEVR3sVZUTVjRoVuKLW3ENWDaXWMPQWTMpWXiTWZRTWYArWUKxWNurWFc9W5k0',
    1364: 'VxB8VmbRVcTBVTm9VMmuVIH2VGIWVHIXVKxiVRHzVZelVjg_VuUQW3SIWDijWMZ-WTSeWXpmWZVgWYGNWUOwWN-WWFhCW5r5',
    1366: 'VxMaVmgBVcbRVTnWVMrtVIFUVGKLVHEcVKw2VRCFVZZaVjbKVuNyW3QLWDexWMeQWTTbWXz-WZalWYTxWUVcWOBzWFm3W5_B',
    1373: 'VxUQVmmhVcj4VTstVMxJVIHNVGMPVHB9VKuBVR2JVZTlVjL2VuELW35EWDR-WMHVWTG0WXgBWZR5WYHVWUTQWO8OWFrzW62n',
    1380: 'VxMUVmjrVca0VTofVMmuVICPVGAzVH6xVKiuVR0YVZJ_VjM4Vu6cW37GWDLxWMIoWTBfWXgXWZOPWYHaWUSCWO94WFs3W64h',
    1387: 'VxmJVm_KVczUVU2aVN7jVIOZVGU1VHEnVKyjVR5aVZXiVjQLVuIbW3CdWDWUWMQPWTKvWXprWZWBWYREWUYeWOIRWFy5W6EC',
    1394: 'VxeJVn15VcrWVU31VMyvVIKoVGDoVH4VVKb-VQq6VZ6MVj3oVttdW2rUWDBKWM78WT8NWXcPWZRXWYJ7WUZTWOD_WF_nW6BP',
    1401: 'VxlkVn1IVc-lVU5CVN88VIOxVGQ3VH9hVKn7VQv7VZD-Vj8AVtwrW2vxWDBLWMCtWT7iWXkhWZSdWYUPWUccWOQmWG37W6ND',
    1408: 'Vxz4VnIxVdB6VULwVNJPVIdxVGZjVHL7VKuEVQ-jVZHbVj6MVtwwW2nYWD93WM10WT58WXZNWZShWYNcWUiSWOR3WGGFW6Ub',
    1411: 'Vxw3VnCKVd6kVUCyVNCAVISBVGQVVH8sVKm0VQrOVZD3Vj28VtwLW2nfWDA0WM2FWT4QWXYeWZOLWYJHWUa5WOJJWG55W6K_',
    1415: 'VxpmVn79VczPVU4zVN0dVIJ1VGDTVG_xVKXUVQjJVYzGVixZVth0W2jVWCzzWM1pWS-MWXd1WZP7WYSMWUfyWOV3WGCNW6WA',
    1422: 'VyBxVnSwVdNkVUQtVNP1VIarVGXCVHA-VKl-VQnYVZ7oVixGVtpNW2hoWD5CWM0oWT4jWXdaWZVGWYUzWUnBWOaMWGMJW6ei',
    1429: 'VyBFVnZnVdMGVUVfVNKGVIbUVGMvVH6MVKVYVQeAVYp8Vil8VtUBW2VBWCpaWLsVWSvoWXXkWZRgWYU3WUphWOdpWGSuW6l0',
    1436: 'Vy7YVnO1VdLXVUNUVNNIVIWnVGSvVH3iVKcbVQbyVYuqViiHVtWLW2RbWCnTWLolWSqCWXUCWZJyWYQpWUh9WOavWGKNW6iG',
    1443: 'VyQ6VnoTVdbzVUlRVNawVIrkVGdoVHLTVKlAVQphVY_6ViqaVtaoW2UoWCsEWLppWSxqWXWlWZW6WYX0WUxsWOkoWGeIW6un',
    1450: 'VyKuVnb0VdSXVUT0VNMYVIUvVGL4VGyDVKPLVQQoVYd_ViVUVtF5W2GUWCahWLjAWSlgWXWaWZOzWYbJWUt-WOquWGalW6zQ',
    1457: 'VyYvVntpVdkaVUoJVNfKVIovVGbvVHBcVKcZVQZPVYnIViWtVtKmW2BmWCc-WLaYWSltWXNXWZPnWYUyWUx_WOp8WGjfW70t',
    1458: 'VyZfVnqIVdk4VUjSVNddVIjRVGZLVH7GVKaFVQYgVYmRVibMVtLlW2KzWCfaWLmRWSp1WXZDWZRpWYebWUy8WOwhWGiFW77L',
    1464: 'VykKVo47VdsvVUwvVNjNVIt2VGaKVHBVVKVSVQWtVYcnViUkVtACW2ByWCV4WLdKWShyWXSuWZQQWYdgWV1bWP01WGthW7HU',
    1471: 'VyZoVnqZVdkyVUjrVNdbVIhUVGWFVH0HVKScVQLVVYazViJdVt8mW21mWCS-WLUZWSeSWXL4WZKcWYU_WUuaWOqwWGhiW744',
    1478: 'VytwVoHLVe27VV8GVNt7VJ1LVGg4VHGMVKW5VQVmVYZbViPKVt60W25LWCT4WLZ9WSkfWXTSWZXrWYhyWVBLWP5JWH1GW7Ly',
    1485: 'VytLVo6VVd_OVUx0VNo5VIn-VGZ8VG_WVKNHVQE0VYO9Vi7OVstbW1rDWCDpWLNlWSXgWXO6WZOtWYiGWV6VWP9aWG-tW7RB',
    1492: 'VytHVoFWVe1tVV69VNs7VIzvVGduVHAeVKRvVQMCVYRfViAHVsu_W1nQWCCAWLDVWSS_WXA3WZJbWYU_WV4WWP15WH2hW7Oc',
    1499: 'VzDQVoVBVeIgVVFQVO05VJ0nVGhNVH9NVKQjVQK8VYN-ViATVsrBW1rlWCABWLMDWSUAWXMfWZOWWYkzWVCsWPJlWHDaW7jO',
    1505: 'Vz8JVoXqVeH-VVL7VO0mVJ5_VGg3VHAnVKLHVQGDVYF0Vi1wVsglW1g4WC06WL9UWSM9WXArWZIcWYZ_WV7bWP8cWH7oW7XR',
    1506: 'Vz4rVoNrVeDDVVAaVNxwVIxdVGcRVH1AVKK9VQ88VYH2VhyLVslqW1e2WC71WLAPWSSMWXCaWZMVWYb8WV9AWP8YWH7jW7WG',
    1513: 'VzKWVojEVeTyVVVAVOA6VJC9VGkCVHB2VKIxVQAgVY7KVhvMVsXeW1ZBWBwKWL87WSMaWXGAWZPIWYksWVIkWPMkWHL8W7ms',
    1520: 'VzPhVoftVeYZVVS5VOFXVJ9wVGqyVH9HVKQaVQ8eVYEcVhsfVscvW1W4WBylWL5nWSN4WXG0WZQ4WYn-WVLZWPS-WHQ9W7uk',
    1527: 'VzI4VohLVePxVVSDVO5ZVJ96VGgOVH8GVKGKVQ7OVY51VhppVsTrW1QDWBqPWKy-WSFuWX5bWZKbWYe3WVIhWPLQWHQJW7q1',
    1534: 'Vzf5VouHVej4VVZoVOISVJAFVGmtVH4YVKIGVQ2MVY4_VhnHVsToW1SFWBrIWL3zWSIeWXHFWZQBWYtoWVRHWPe4WHauW87o',
    1541: 'VzcOVoymVej0VVftVOIZVJF0VGl7VH5YVKDnVP-2VX-9VhdbVsMRW1FaWBllWKt5WSFMWX5OWZOcWYjMWVR7WPVFWHcFW80a',
    1548: 'VzhXVp1sVeqQVVlkVOPPVJJ1VGnjVH58VK8yVPuAVXn8VhTjVs3jW14SWBRLWKj7WRzEWW-hWZBcWYhaWVKHWPYvWHakW88b',
    1552: 'Vzr2VpAjVeysVVt-VOXUVJQ_VGwqVHDDVKKJVP_yVX-eVha0VsHmW18XWBeXWKlwWS9SWX23WZNxWYmtWVXnWPgPWHp-W8Hp',
    1555: 'VztfVp9iVe-bVVsuVOZuVJQ-VG-LVHE4VKO1VQ12VY20Vhc1VsLPW1CNWBicWKrIWSDMWX7gWZQYWYqzWVXqWPhdWHmzW8GG',
    1562: 'Vzp4VpBsVev0VVspVOR7VJNCVGmkVH6BVK5UVPrtVXhwVhOTVrzvW0zQWBMrWKdCWRysWWzFWZH8WYlYWVUlWPgUWHnVW8H0',
    1569: 'V-1qVpH5Vf6PVVvgVObLVJMNVGtPVH1sVK9RVPlYVXkDVhIOVr_MW0w3WBOiWKejWS0UWX3-WZMyWYwLWVcXWPtjWHwQW8Un',
    1576: 'V-8QVpXuVfEdVWAuVOieVJbWVGx_VHDWVKA-VPt2VXjPVhL9VrzBW0tzWBMDWKYnWR-ZWWyaWZN3WYqYWVgZWPsFWI3pW8Yr',
    1583: 'V-5tVpOHVfBgVW03VOe5VJOoVGqmVG-qVK0OVPdLVXVgVh6ZVrjkW0iiWB6lWKQ_WRlZWWsqWZ8eWYm3WVTSWPpUWHuuW8YZ',
    1590: 'V-IXVpdqVfNRVWEzVOp3VJcRVG-_VHALVKASVPmXVXg_VhE7VrxQW0pgWBMiWKYSWS19WW_SWZQ-WYvGWVk-WPxPWI7_W8df',
    1597: 'V-K2VphRVfPyVWIBVOq1VJdCVGxYVH6oVJ_pVPdLVXN_Vg_nVrYOW0Z0WAymWKJSWRhzWWs6WZEDWYtVWVgeWQ05WI93W8li',
    1599: 'V-JSVpaVVfPpVWC5VOrGVJYzVG_YVH5SVK7KVPe_VXXmVh2nVrgpW0afWB0WWKIAWRg3WWniWZ7bWYn3WVY8WPwEWI29W8ih',
    1600: 'V-GpVpg_VfNHVWHZVOmTVJbJVGsrVH3pVJwxVPa3VXJ-VgyCVrUtW0TvWAuPWKBxWRcBWWinWZ7eWYjtWVatWPuGWI5xW8h2',
    1601: 'V-KLVpfAVfQLVWFSVOpDVJYWVGvTVG_qVJznVPU-VXNeVgtOVra9W0RcWA_WWKCmWRjDWWkgWZCBWYkQWVbtWPs1WI3WW8bq',
    1602: 'V-FeVpY7VfL6VW8XVOl4VJTeVGt8VG-HVJz1VPXEVXNXVgytVrZjW0Z8WA-oWKLPWRj0WWtaWZCVWYshWVbzWPzBWI2pW8h_',
    1603: 'V-E3VpdsVfJFVWEbVOjsVJaRVGsjVH4aVJyJVPamVXLdVgxqVrWWW0T4WAwyWKC3WRgCWWk9WZCHWYlTWVepWPumWI8EW8fn',
    1604: 'V-L1VpceVfQVVWD6VOqIVJXgVGy2VH0ZVK0qVPV_VXPFVgtDVrZ0W0P_WAyKWKBkWRhOWWnWWZEtWYsZWVj8WQ1fWICaW8nX',
    1605: 'V-N6VpgtVfOcVWCqVOk5VJTwVGolVGy2VJsrVPToVXGnVgusVrTOW0V2WAw2WKIeWRi0WWuoWZHYWYzsWVnPWQ9gWIIJW8wj',
    1606: 'V-ThVpqiVfV3VWMBVOpXVJbfVGt7VH1iVJxDVPXqVXMoVgxWVrb1W0VgWB1gWKGdWRnaWWptWZKDWYssWVoWWQ2iWIKUW8s2',
    1607: 'V-Y_VppaVfe5VWOQVO_HVJfmVH3MVH5bVK5GVPa2VXSqVgyaVrdEW0XOWB1QWKK8WRmNWWv9WZIhWYyyWVmmWQ9BWIJCW8zZ',
    1608: 'V-Z9VpyUVffQVWXmVP0DVJnxVH1qVHAyVJ_hVPbQVXJDVgw6VrS2W0SkWAu7WKFhWRhhWWtDWZJeWY-PWVr_WQCkWIPtW91B',
    1609: 'V-f2Vp_JVfkOVWaJVP5JVJqhVH83VHDiVK7QVPdJVXRsVgwKVraYW0RrWA__WKElWRo9WWs8WZO3WYyoWVuVWQA0WIQTW8yY',
    1610: 'V-dkVpufVfhuVWS-VP3CVJk-VH7yVHBpVK9yVPgQVXW4Vh1XVrdyW0aEWB0NWKL-WRljWWxpWZK8WZ1WWVqUWQF1WINXW92q',
    1611: 'V-c9Vq0CVfhBVWbFVP2wVJtUVH7bVHJVVK8mVPlqVXTxVh3SVrb7W0XcWAyWWKETWRgrWWn7WZFQWYsPWVnRWQ5rWINKW8yv',
    1612: 'V-f8VpzKVfmHVWZaVP84VJqgVHBUVHEaVKBXVPfFVXW9VgyjVrdRW0StWA_7WKCaWRixWWnIWZGUWYtSWVn9WQ66WIL6W8x3',
    1613: 'V-amVpv1VffuVWTBVO_tVJi_VH1lVH79VK1EVPaGVXMiVgxoVrWFW0WOWAxTWKJiWRieWWvXWZHHWY-AWVmtWQAXWIJ5W8zk',
    1614: 'V-XKVpw-Vfc0VWVNVOybVJlmVG_aVH9yVK0OVPcLVXNfVgyDVrYdW0U4WA-DWKEfWRkyWWoYWZIWWYrgWVmhWQ0nWIHtW8pR',
    1615: 'V-W4VpnDVfbwVWNKVO-cVJg2VH3kVH5yVK53VPYUVXQTVgt-VrYeW0QYWAxoWKD0WRhdWWpnWZG3WYvrWVllWQ6wWIHvW8w2',
    1616: 'V-VsVpsWVfZeVWPaVOukVJeiVGvqVH1hVJtdVPSHVXAYVgmaVrIEW0IuWAjfWK6RWRXzWWltWZC9WYvuWVnBWQAUWIMNW8--',
    1617: 'V-aFVpwUVfbyVWRCVOuTVJdWVGtrVG-EVJrzVPNhVXB3VghfVrLDW0ECWAoGWK2CWRcNWWhIWZEsWYqVWVoOWQ4bWIN1W8v0',
    1618: 'V-b5VpqeVfdAVWLXVOvtVJYAVGvFVGvsVJtMVPLcVXCWVgisVrLzW0HsWAn2WK6cWRZ4WWlQWZA3WYu1WVj4WQ8QWIImW8-c',
    1619: 'V-ZDVpysVfdyVWW9VOyRVJjnVGxKVH3gVJsAVPQvVX77VgilVrD_W0D4WAebWJ-UWRRdWWbrWZ4SWYkhWVfTWQ0WWIHPW8vF',
    1620: 'V-aZVpwcVfi0VWWRVP2MVJkwVH22VH3yVJyjVPOpVXCKVgduVrHVW07KWAhKWJwRWRUaWWaqWZ8CWYmHWVjMWQ2BWIJVW8uL',
    1621: 'V-ZcVpsHVfeJVWPiVOzDVJdvVGywVG_0VJuiVPNmVX9ZVggzVrFMW0DUWAfnWK2cWRUBWWjtWZ8pWYvIWVkWWQAzWIKaW90T',
    1622: 'V-ZeVpzDVfcyVWVdVOxFVJjkVGxpVH5eVJvuVPVOVXDqVgoDVrLXW0HVWAlJWK1WWRXOWWeCWZ9iWYn0WVkSWQ2VWILQW8vf',
    1623: 'V-cXVpugVfhvVWS-VP1rVJiPVH3hVH52VK2MVPUtVXLpVgn_VrSPW0ITWAqNWK3pWRaEWWhZWZB5WYrUWVllWQ8LWINvW913',
    1624: 'V-gTVq0hVflgVWZOVP2kVJlBVG_kVH3wVJvXVPRNVX9sVgkGVrGFW0GQWAh6WK4JWRVEWWkGWZ9wWYvjWVm_WQDKWIPtW95-',
    1625: 'V-h-Vq5IVfmhVWdmVP3TVJorVH0DVH66VJwLVPRyVXCOVgjxVrLiW0GKWApgWK5AWRfHWWl3WZIlWYubWVsqWQ9EWISbW8_H',
    1626: 'V-iqVpzVVfnYVWWuVP69VJkVVH5TVH4iVK1OVPTDVXJeVgnaVrRZW0LpWAt7WKByWRh8WWtCWZKBWZ1aWVt-WQI8WIT8W97V',
    1627: 'V-iiVq53VfnAVWeUVP67VJslVH5SVHCsVJ_hVPZBVXEiVgpVVrJjW0JOWAkHWK6LWRZNWWmlWZFSWYyxWVtEWQGZWIVmW98b',
    1628: 'V-n8Vq7PVfrgVWgMVP9UVJsuVH7vVHBIVK2WVPWCVXIOVgl1VrNgW0E8WAoHWK27WRdsWWk_WZK_WYzyWVztWQJ0WIcNW9AE',
    1629: 'V-s2Vq6FVftSVWbQVP7bVJkoVH33VH2MVJydVPPuVXDXVgjoVrKQW0HcWAlxWK8RWRb-WWsLWZJJWZ5IWVyVWQQiWIbvW9It',
    1630: 'V-sdVqFpVfubVWlFVP8VVJu0VH35VHAIVJxvVPWOVXDDVgokVrLQW0J-WAnSWK6fWRcCWWlzWZHSWYxfWVvPWQGLWIZgW9AY',
    1631: 'V-tKVqBJVfzDVWkkVPGbVJvzVHC_VHC6VK58VPVTVXJcVgkfVrOwW0FBWApMWK3YWRdGWWl1WZHpWYy5WVvEWQHKWIZXW9C0',
    1632: 'V-trVqD4Vfz-VWl-VPGHVJvpVHA2VHA4VJ-RVPRfVX8sVgfbVrBGW0A8WAb-WK0bWRTaWWlWWZC_WY_mWVtwWQMSWIYsW9GN',
    1633: 'V-reVqFtVfwGVWn-VPCLVJxyVH7CVHCcVJzaVPUAVXAUVgh9VrF1W09nWAgwWJ-9WRYUWWhHWZGuWYv_WVwMWQFAWIZhW97P',
    1634: 'V-qkVq5IVfuAVWctVPAeVJoCVH7lVH5tVK1CVPR9VXGLVghbVrKrW0C3WAjjWK0JWRXQWWivWZDPWYxhWVsHWQHfWIWMW9B2',
    1635: 'V-ocVq9mVfslVWhYVP94VJsdVH4-VH9VVJy5VPTHVX8MVghVVrAhW09QWAYiWJwoWRMHWWb3WZ35WYpXWVkCWQBTWIRTW986',
    1636: 'V-mtVq9rVfswVWihVP93VJsJVH3fVH6bVJwFVPO2VX7RVgaoVrBcW02nWAbvWJrzWRRHWWY7WZ8RWYn7WVoGWQ7iWIT8W91o',
    1637: 'V-lyVq0tVfprVWXgVP4OVJg5VGznVGwRVJpwVPEFVX1-VgVtVr7sW03WWAZuWJxSWRQpWWgIWZ8HWYvHWVmuWQEGWIP-W96b',
    1638: 'V-hOVq4dVfkqVWbYVO_-VJl4VGwPVH0VVJnDVPKQVW_eVganVr64W05xWAYiWJwdWRPxWWcnWZ7mWYqIWVmeWQ8mWIPpW91C',
    1639: 'V-hOVp_vVflSVWX-VP1xVJimVG-AVG-hVJs8VPHJVX3zVgVHVr8vV__PWAabWJrSWRRmWWaOWZAUWYr9WVr0WQCGWIVjW95n',
    1640: 'V-nSVq3AVfpJVWXjVP1dVJeFVGv4VGt3VJj4VP8vVWuGVgNyVqxlV_w4WANxWJpDWRINWWcIWZ63WYxVWVrWWQMJWIZMW9He',
    1641: 'V-roVqEuVfsbVWhvVP2sVJm1VGuFVGyNVJhLVPCVVWtrVgQoVq-HV_y7WAT1WJpVWRO5WWaEWZAzWYtWWVvRWQHOWIc_W9Ct',
    1642: 'V-vyVqA_VfxhVWf3VP8_VJk0VG_JVGwtVJp2VPBTVW_lVgQpVr5kV_zjWAYlWJsAWRR8WWdBWZBZWYwPWVutWQKuWIdHW9ID',
    1643: 'V-ypVqJBVg1qVWqAVPHXVJwqVH7VVH6sVJtSVPKAVW-BVgV1Vq-mV_-7WAPNWJqTWRIHWWauWZ4dWYuhWVqCWQKgWIayW9KO',
    1644: 'V-z0VqOAVg4QVWxNVPLjVK2mVHCVVHDzVJyrVPOwVX3dVgWFVr3yV_y7WAUmWJnhWRP5WWZiWZDEWYvAWVz9WQKdWIhwW9HV',
    1645: 'V_0eVqHnVg55VWoiVPLBVJv_VHCkVH7HVJ_6VPM0VX7zVgXzVr9CW01kWAZ8WJvTWRRuWWiMWZErWZ24WV-IWQThWIiwW9QG',
    1646: 'V_17VqPdVg4jVWvlVPKQVK1QVHCcVHGTVK0MVPX9VXASVgjKVrB-W0AcWAawWJzLWRRFWWgcWZBsWYyiWVwZWQNhWIgIW9M2',
    1647: 'V_0gVqO3Vg6PVWwFVPNeVK2rVHH6VHHmVK68VPXOVXHBVgi6VrJBW08eWAi3WJxfWRXYWWfIWZGgWYxaWV-RWQN4WIkWW9MJ',
    1648: 'V_5kVqOUVgB7VWv3VPPrVJ-PVHEzVH9tVJ_WVPO8VX7lVgadVr94W04wWAZFWJySWRRfWWk7WZDnWZ2fWVy_WQUPWIijW9Sa',
    1649: 'V_2jVqTfVg7JVWztVPLqVK31VHAlVHDtVJx3VPR9VX4IVgdFVr8nW07mWAcrWJ-rWRXXWWktWZJZWZ0kWW0ZWQP3WIj0W9K3',
    1650: 'V_0HVqJNVg3vVWpqVPJiVJw_VHBfVH8PVJ_6VPNOVX9xVga8VrEHW05NWAhCWJzrWRaeWWljWZL-WZ3CWW2oWQSIWIl4W9N1',
    1651: 'V_1xVqLaVg55VWrRVPKPVJyNVHB6VH9IVJxtVPN3VX2QVgXUVr1-W00EWASEWJtjWRMNWWgXWZArWZ0eWVxsWQTEWIhrW9Qt',
    1652: 'V_0dVqQSVg3SVWv5VPGjVJzMVH5MVH7lVJrhVPJjVWzcVgSaVq_8V_vUWAR8WJmDWRNVWWaNWZEcWYybWW1QWQQCWInZW9N7',
    1653: 'V_4qVqKRVg4rVWlvVPExVJnFVH1HVGwEVJn2VP7SVWwPVgKaVq-EV_spWAR8WJn9WRMaWWcpWZCTWY_mWV_3WQUQWImBW9Si',
    1654: 'V_4uVqR4Vg5tVWswVPFuVJt-VH10VH0LVJksVPCqVWs6VgOgVquaV_v8WAL4WJmXWRFTWWY0WZ3dWYtZWVrNWQLUWIdjW9M0',
    1655: 'V-_dVqOdVg4pVWusVPIZVJyWVH5nVH4UVJphVPDbVWvYVgKnVqwQV_nzWAMbWJfMWRI3WWSmWZ7DWYp-WVvMWQInWIh_W9Jq',
    1656: 'V_4LVqMTVg9PVWrwVPL-VJtwVH6hVGzfVJn0VP53VWp6VgC8VqmvV_gpWABjWJbPWR8sWWTaWZ1nWYv9WVs_WQPuWIg7W9Q3',
    1657: 'V_0uVqQpVg4PVWvFVPGeVJxgVH29VH2lVJjpVPBHVWnVVgIcVqnKV_mIWADkWJe4WRAuWWSfWZ32WYrXWVtRWQKlWIfoW9K7',
    1658: 'V-_kVqKRVg2oVWp6VPFvVJt2VH4MVH0mVJqEVPBrVWxNVgKMVqyAV_npWAMwWJejWRGzWWSPWZ6FWYr4WVvWWQL6WIihW9L_',
    1659: 'V_4NVqNgVg8mVWsxVPLrVJwNVH8NVH2nVJqvVPCdVWu8VgKFVqr5V_mzWADBWJdNWR6OWWQtWYyEWYq1WVnEWQLqWId0W9PV',
    1660: 'V_1XVqTtVg7tVW-LVPL9VK0_VH6fVH7UVJoPVPFNVWsTVgLkVqs4V_nmWAHYWJe8WRDqWWS4WZ5MWYqtWVvdWQKbWIipW9LF',
    1661: 'V_4IVqMwVg8MVWrkVPKeVJtrVH6LVG-eVJp8VP7wVWv1VgHZVqx1V_oVWAOIWJjPWRKwWWZyWZBWWYzEWV-DWQS0WIldW9R0',
    1662: 'V_5eVqRIVg92VWvsVPLiVJz9VH8HVH62VJrWVPH3VWwKVgQbVqwCV_vwWAM2WJoZWRI1WWchWZ8QWY-KWVxIWQSiWIjBW9SF',
    1663: 'V_3tVqTfVg8HVWzbVPMJVK20VHAUVHB5VJv3VPKcVW-hVgRBVq-kV_tOWAQoWJl2WRO4WWahWZGVWY-sWW5VWQVUWIuwW9Vy',
    1664: 'V_FTVqVvVgHHVWy6VPQzVJxuVHAVVH1AVJrVVP9RVWvFVgHqVqujV_ncWAKiWJjOWRJIWWdlWZErWZ6cWW7EWQgRWIyfW9hv',
    1665: 'V_JOVqh7VgK5VX5cVPRnVK3TVH98VH7TVJobVPFQVWsNVgORVqtzV_uxWAMgWJpNWRLqWWgDWZGCWZ5iWW7SWQduWIycW9fX',
    1666: 'V_J-Vqg3VgLpVX60VPUoVK4qVHDXVH8xVJubVPGGVWzkVgO3Vq_qV_tcWAULWJo8WRSeWWf7WZL7WZ49WWAkWQcEWI_vW9e_',
    1667: 'V_P8VqhjVgTkVXA7VPeiVKA2VHMaVHClVJzKVPGwVWy6VgLRVqtmV_olWAH-WJjBWRFjWWc4WZAEWZ3XWW2GWQdeWIvPW9i6',
    1668: 'V_KJVqmTVgQNVXG8VPcHVKGjVHKdVHJFVJxFVPLvVWvhVgNuVqreV_oQWAH6WJgvWRHAWWZuWZEfWZ2MWW85WQbuWIzkW9da',
    1669: 'V_K-Vqe5VgNDVX4lVPX9VK4MVHGFVH87VJvqVPDNVWxiVgIOVqw4V_lwWAL-WJgMWRKMWWZwWZFgWZ2kWW8JWQd5WI-JW9fG',
    1670: 'V_LpVqfOVgNcVX5CVPWoVK4jVHFbVHA0VJvVVPHrVWx2VgOEVqtOV_qlWAGUWJiKWRC2WWY4WZ52WY-4WVz1WQYFWIqXW9cl',
    1671: 'V_EvVqg6VgJPVX8EVPU3VK89VHC-VHC4VJsaVPHbVWuhVgLfVqsWV_lxWAH0WJc6WRDkWWRXWZ7HWYtVWV_NWQRvWItIW9Wy',
    1672: 'V_I3VqaGVgLuVX0uVPUGVJzkVH9eVGzrVJlXVP0xVWlVVg68VqjWV_avWA9WWJWdWR8FWWR6WZ3zWYwVWVzFWQVwWIqrW9aA',
    1673: 'V_EkVqcZVgIGVX35VPQtVK0VVH6FVH1JVJhNVP4lVWgLVgACVqexV_foWA7LWJbXWR7jWWU5WZ3DWYwTWVwmWQSlWIltW9UU',
    1674: 'V_7cVqVgVgARVWyjVPKNVJy5VH2uVG_BVJhuVP3hVWjpVg87VqjMV_biWABmWJWwWRCWWWQYWZ8OWYuCWW0BWQRIWIrQW9TC',
    1675: 'V_D9VqUDVgG0VWxAVPPsVJwFVH7EVGyHVJjVVO_KVWhGVg2LVqbjV_UjW9_lWJQ6WQ_JWWMHWYzWWYu5WVvOWQVTWIoVW9aU',
    1676: 'V_CSVqcTVgFBVX2AVPN1VJ_1VH28VG_KVJd3VP1PVWayVg3qVqW-V_VJW9zDWJPSWQ_IWWLMWZ0RWYtzWV-OWQVqWItqW9aF',
    1677: 'V_GNVqaRVgGaVWzZVPLrVJtuVG_fVGssVJbaVOvUVWcUVf-JVqcEV_TIWA4rWJQ2WR6OWWMUWZ5GWYuwWW20WQXVWIyCW9dT',
    1678: 'V_MiVqfQVgOoVX3qVPUsVJ-fVH7zVGziVJhxVP0MVWfnVg4mVqbmV_YrWA1IWJUKWR0fWWOYWYzQWYuSWVuoWQW6WIpcW9dt',
    1679: 'V_H1VqjmVgNNVXCcVPXQVKAUVHChVH9gVJmPVP9SVWiwVg9bVqeBV_ZbWA4DWJSxWR5XWWNSWZ4gWYuOWW1JWQWNWIy9W9dg',
    1680: 'V_OiVqiSVgThVX9uVPcMVK6EVHGLVH3jVJojVP1zVWjrVg1tVqe6V_TmWA3lWJQcWR5lWWPcWZ74WY-wWW60WQfBWJ1GW9lq',
    1681: 'V_SLVqoVVgVYVXEJVPdFVKAlVHHTVHABVJqiVPBHVWmTVgDQVqh2V_g2WA6rWJbKWR7tWWWnWZ7IWZ2VWW4YWQgcWI-pW9mT',
    1682: 'V_PIVqoyVgSAVXE_VPaTVKCRVHGuVHDiVJu2VPGeVWuDVgJ8VqrTV_jsWAHPWJchWRHKWWWNWZFDWZ12WWBUWQf9WJ66W9m7',
    1683: 'V_Y4VqqBVgcSVXHBVPkyVKDoVHPNVHCXVJytVPCtVWv1VgEMVqokV_ffWABhWJZfWR9qWWUzWZ7jWZ1eWW5HWQhsWJ1sW9qq',
    1684: 'V_VpVqwMVgbIVXNbVPjNVKJNVHMGVHGzVJtxVPGKVWpAVgHTVqk9V_jKWAAVWJe0WRCFWWZQWZCKWZ50WW9YWQiiWJ3YW9oR',
    1685: 'V_U4Vqr0VgWnVXGNVPdeVKBQVHH7VH97VJr2VP9GVWpgVgBsVqoLV_gCWAH-WJe1WRLVWWbYWZLCWZ7aWWH1WQkXWJ9QW9on',
    1686: 'V_YVVqptVgaGVXETVPgtVK9sVHKRVH8oVJtyVPAGVWqYVgDDVqlSV_grWABBWJdsWRCSWWb0WZBdWZ75WW7sWQkZWJ15W9pl',
    1687: 'V_RCVqryVgU1VXHeVPbcVKDtVHFpVHClVJpDVPCkVWlXVgDDVqgiV_drWA7MWJYcWRAnWWV-WZDWWZ4UWWDZWQkrWJ9XW9rc',
    1688: 'V_ZqVqsfVgZwVXEaVPczVK5hVHCdVG_oVJi-VOyqVWeFVfz3Vqa0V_QCWA1wWJOwWR6eWWQhWZBSWZ3eWWEFWQnPWJCHW9vh',
    1689: 'V_dRVqwgVgd7VXHLVPeTVK6iVHBcVG_kVJfgVOzFVWZUVf_FVqUzV_UMW9zMWJTHWR1YWWSVWZ4GWZ1yWW55WQjrWJ2oW9si',
    1690: 'V_VRVqw5VgXjVXJiVPblVKBHVHA-VH4yVJgVVP1WVWbaVg1AVqXuV_SxWA0eWJPWWR5MWWNmWZ7zWYyNWW80WQdgWJ5dW9nF',
    1691: 'V_ZlVqstVgejVXJHVPl9VKC9VHKMVH47VJmXVOyXVWbvVfu5VqSHV_HsW9sVWJEvWQvVWWG5WYzWWYufWW06WQc-WI_jW9o7',
    1692: 'V_V2VquPVgalVXLCVPhiVKEzVHHWVH8RVJjlVP1mVWY8VfysVqNSV_LTW9o3WJHOWQshWWHzWYyqWYwPWW0aWQdxWI_AW9mq',
    1693: 'V_RSVqpuVgTfVXDzVPYiVK6pVH9VVH1UVJfjVOzMVWZZVfwhVqTIV_KGW9vyWJGFWQ-EWWG1WZ2ZWYtgWW59WQbMWJ3sW9kp',
    1694: 'V_WdVqn_VgYqVXBjVPdXVK4UVHEDVH0AVJkhVO-BVWe8VfzUVqVXV_NSW9tyWJI1WQtkWWFeWYujWYrZWVvwWQZ9WIvZW9kZ',
    1695: 'V_P5VqqsVgUTVXHJVPbCVKBNVHC9VH6iVJheVP3NVWaZVg1VVqT8V_QRW9tgWJJeWQvTWWG2WYy2WYrQWV-GWQY_WI-OW9kT',
    1696: 'V_TYVqq3VgXNVXEaVPbdVK5PVH9jVGyxVJd8VOsnVWVuVfqhVqQdV_GtW9upWJFNWQzuWWGhWZ2OWYu-WW4yWQcxWJ3xW9m-',
    1697: 'V_XbVqr2VgacVXEwVPedVK65VHCZVG-hVJfLVOwCVWX4VfwLVqR5V_P0W9vRWJPCWQ-pWWQFWZ2UWZ0OWW2yWQhVWI_RW9pC',
    1698: 'V_RCVqsCVgTlVXGgVPZ9VK9sVH9rVH4pVJfkVP1UVWa1Vg0cVqVaV_SOW9-sWJQDWR5lWWQ-WZBMWZ1_WWDHWQjtWJAIW9rh',
    1699: 'V_bpVquIVgdlVXI3VPiEVK9rVHHNVH2NVJktVOxxVWbqVfuJVqTaV_IwW9vXWJHcWQ-_WWLXWZ6JWZ1ZWWCEWQoaWJDPW9zt',
    1700: 'V_hIVr1CVgiuVXPCVPkxVKEUVHH9VH5fVJiQVO_VVWY6VfyxVqPaV_OWW9sbWJNfWQz-WWRiWZ7HWZ7lWWETWQufWJFpWA3O',
    1701: 'V_ieVr5NVgiAVXREVPhoVKE2VHCRVH3MVJeMVOysVWXaVfxNVqTwV_OFW9-dWJNxWR74WWRCWZF8WZ60WWL5WQshWJMhWA2a',
    1702: 'V_rCVr6cVgsuVXUNVPu4VKIAVHOqVH7AVJp3VO_NVWemVfyUVqWfV_ObW9yyWJNuWR1uWWQrWZ7eWZ5DWWCQWQrxWJEaWA3R',
    1703: 'V_ljVrAiVgrJVXcJVPw0VKS_VHSDVHIbVJqxVP8hVWdLVg2AVqScV_QsW9udWJO6WQ_RWWQjWZ8AWZ5wWWFMWQtKWJI8WA4L',
    1704: 'V_nwVr9sVgr5VXZ9VPtWVKNWVHONVHA_VJm-VO_MVWa9VftbVqQVV_GQW9u1WJFsWR0pWWLxWZBgWZ4gWWKlWQuEWJODWA5J',
    1705: 'V_tPVr9bVgvTVXXiVPx7VKL_VHRvVHAyVJquVP25VWeBVfzPVqTWV_NvW9uaWJMlWQ-9WWQYWZ5tWZ6SWWCZWQu8WJE_WA4m',
    1706: 'V_kCVr9TVgmpVXYQVPpVVKO6VHM4VHExVJnXVP7eVWdYVg3AVqV6V_ReW9x0WJMzWR0QWWNhWZ7nWZ1wWWEQWQpJWJHUWA0-',
    1707: 'V_o5Vr7TVgsHVXXiVPvUVKMcVHQiVHASVJpUVO_AVWcRVftbVqRWV_FRW9roWJC1WQvzWWEjWZ13WYxPWW8wWQlOWJE0W9_C',
    1708: 'V_mcVr6yVgroVXXIVPudVKLgVHONVH95VJl6VO-AVWWAVftmVqKJV_HUW9loWJGNWQsaWWKMWY_BWZ05WW60WQnHWJ8CW9zf',
    1709: 'V_dNVr2WVgg2VXRKVPi4VKFbVHCoVH3oVJc6VOw5VWRNVfr0VqKSV_FXW9p-WJEtWQzLWWJ7WZ6kWY-VWWCxWQkcWJDjW9vY',
    1710: 'V_hRVqzFVgjIVXLmVPlbVKAmVHHUVH0AVJhbVOsvVWVbVfnGVqLJV_B5W9mWWJ9-WQsIWWEfWY-IWYxRWW4zWQjHWJ73W9vg',
    1711: 'V_cAVq-KVgf1VXNOVPhnVKCrVHDUVH2iVJcgVOvcVWPIVfpRVqDyV_C8W9fUWJA1WQn2WWEeWYy7WYyyWW6RWQnCWJBDW9--',
    1712: 'V_gJVr2MVgg9VXNXVPeAVK7jVH5UVGupVJSnVOj3VWGnVfcaVq8tV_0oW9eFWJ1UWQp6WW9MWZ0fWYwlWWC-WQnOWJJJWA0a',
    1713: 'V_pTVr4UVgpVVXP6VPmTVK7tVHBhVGtXVJWgVOhoVWJ9VfdbVqAgV_4_W9f4WJ7KWQnlWWEMWYy9WYzGWW5ZWQntWJAlWA12',
    1714: 'V_hzVr6vVgkhVXUZVPkhVKGEVHC4VH1VVJXgVOrSVWJlVflKVqB1V_A2W9g8WJ9_WQqGWWFXWY_xWYzSWW9mWQnRWJF3WA0-',
    1715: 'V_nFVr8gVgs1VXYiVPu0VKLEVHLjVH4RVJfJVOpbVWNRVfdpVqATV---W9cwWI-_WQmdWW7XWY-5WYvoWWAoWQnMWJILWA2X',
    1716: 'V_rRVrABVgw3VXZdVPxdVKMFVHP8VH6kVJiSVOtqVWPRVfjZVqAIV_5QW9b5WJ63WQkzWWFJWYzPWZ1gWWALWQuMWJGhWA7W',
    1717: 'V_n9VrCLVgopVXZPVPohVKLMVHGxVH7DVJdWVOx0VWPiVfpGVqFtV_BcW9jrWJAVWQuOWWHLWZ6EWZ28WWInWQuVWJPOWA88',
    1718: 'V_wIVrDMVgxwVXaCVPxRVKLjVHPkVH7UVJmoVOxAVWYbVfp4VqMqV_B4W9n9WJ8_WQsxWWEJWZ0qWY-BWWBlWQr6WJJIWA6q',
    1719: 'V_t1VrEyVgxpVXeFVPz9VKQuVHR7VHCcVJmEVP07VWVyVfuEVqJ6V_GhW9k6WJEyWQrZWWK3WZ0xWZ3YWWCxWQwUWJL6WACE',
    1720: 'V_uPVrJbVgxeVXh2VPwZVKQdVHLhVH8UVJetVOunVWPEVfleVqFnV_99W9lgWJAZWQy1WWJKWZAbWZ4vWWN6WQxSWJTlWABM',
    1721: 'V__7VrH4Vh1DVXdsVP__VKNiVHRQVH6AVJkOVOtFVWTwVflwVqJbV_C8W9oCWJFZWQymWWP3WZ9MWZ9uWWJdWQ-ZWJNyWACS',
    1722: 'V_toVrH4VgvlVXeUVPw0VKQmVHO1VHCXVJjJVO_pVWTbVfu4VqImV_HzW9nIWJIzWQyzWWRFWZBiWZCSWWOJWR2FWJUCWAG-',
    1723: 'V_-KVrLiVg_cVXi9VP-IVKRzVHQ2VHA1VJj9VOv1VWRNVfitVqEJV_3YW9hJWJ4BWQtAWWF3WZ88WZ4tWWOjWQ_mWJYrWAIC',
    1724: 'W05cVrNxVh6mVXinVQ34VKQ0VHRkVH6LVJiFVOrhVWOvVfhmVqAkV_4sW9cjWJ7JWQoQWWJMWZ3gWZ9KWWKBWR3qWJTyWALl',
    1725: 'W004VrQmVh0FVXkbVPxNVKQiVHJ3VH6DVJZeVOraVWIVVfikVq8fV_6pW9ehWJ8MWQr-WWHzWZ6oWZ5iWWMZWQ_HWJWRWAHw',
    1726: 'W03sVrOuVh62VXkwVQ3BVKSSVHSEVH7sVJihVOqtVWP6VfeLVqBUV-_sW9drWJ0XWQnlWW9tWY_tWYzWWWEEWQtOWJOSWABR',
    1727: 'V_-AVrL9Vh3yVXkhVQ4VVKVFVHV5VHCFVJkSVOvOVWNgVfhoVq62V_1oW9W8WJ1yWQgiWWB_WYx6WZ0vWWBhWQxhWJMXWAF3',
    1728: 'V_wbVrMWVgzVVXjDVPxJVKRHVHKFVH6RVJZfVOobVWF3VfagVq0yV-wSW9UbWIx8WQibWW6-WZ01WYzyWWIQWQviWJTRWACe',
    1729: 'W00SVrIiVh1kVXdyVP-SVKLUVHNZVH1LVJe5VOlLVWKlVfaEVq75V-yeW9YpWIznWQijWW8DWYxwWYzHWWBNWQtkWJLHWAAU',
    1730: 'V_ujVrH9Vgx3VXdNVPuxVKMQVHJJVH4gVJbCVOrDVWIkVfhTVq5QV_3dW9XaWJ3AWQhiWWBAWYwrWY-KWWAVWQuGWJLBWABz',
    1731: 'V_vwVrKLVgzWVXhUVPxDVKOuVHJUVH32VJYeVOkeVWEDVfWbVq0FV-sXW9TEWIseWQf5WW0qWYv_WYsWWWBQWQoqWJNwWA8J',
    1732: 'V_-8VrHbVh2LVXekVP_nVKLgVHMwVG_8VJaAVOglVWDtVfUPVp-lV-tUW9RgWIxUWQepWW8zWYwcWY_GWWAiWQvMWJK2WABF',
    1733: 'V_sdVrHBVguBVXcYVPqlVKJiVHCgVG-nVJRfVOiIVW7xVfXiVpyVV-xwW9TIWI_iWQjAWWCHWZ0dWZ1yWWHPWQxOWJQEWACJ',
    1734: 'V_xcVrHIVgy8VXcDVPulVKJiVHI8VG_RVJYuVOiEVWF0VfUnVq18V-ryW9UmWIuIWQi1WW5EWY-WWYytWWGUWQvAWJRnWACk',
    1735: 'V__cVrJRVh1eVXeyVP-KVKM9VHMNVH1MVJawVOkKVWEbVfXVVpzqV-upW9PCWIxTWQcXWW9eWYxBWZ3UWWGHWR2MWJU3WANK',
    1736: 'W022VrSvVh1WVXkwVPvtVKNLVHDRVG-9VJPPVOehVW4BVfRvVpttV-qRW9OQWIuEWQfxWW7hWZ1gWZ32WWOqWR3IWJe1WAPa',
    1737: 'W0DFVrWQVhDZVXo_VQ5zVKQyVHOvVH0SVJZvVOffVWDpVfSzVq15V-tGW9WUWIyGWQkqWWArWZ2DWZ3zWWLkWR2TWJZXWAOo',
    1738: 'W09yVrXbVhDEVXtJVQ8-VKYaVHUBVHAdVJfPVOqtVWHGVfdFVq1TV-_iW9VNWJ3VWQkHWWHIWZ2fWZ9YWWMYWR7GWJaOWATg',
    1739: 'W0BSVrduVhGNVX_ZVQDdVKhLVHYrVHHHVJiTVOswVWHsVfZPVp_dV-scW9SHWIuFWQiHWW7fWZ3lWZ3aWWRAWR4gWJhQWASf',
    1740: 'W0J4VrcdVhNHVXzNVQJtVKeyVHfAVHFZVJoyVOsSVWNoVfabVq3zV-vPW9UEWIyKWQiMWWCzWZ2tWZ9TWWPRWR9zWJeDWAW1',
    1741: 'W0DVVrdBVhF1VXxWVQ9yVKciVHVfVHFXVJhvVOwFVWKQVfhzVq4SV_2PW9XIWJ3lWQlYWWGlWZ4_WZAMWWR3WR9uWJgBWAWY',
    1742: 'W0GEVrejVhIGVXzWVQDJVKeRVHZXVHGmVJm_VOwNVWQCVfflVq9SV-zRW9aFWIyZWQlTWW7eWZ1iWZ00WWM5WQ_uWJc3WAOb',
    1743: 'W0E-VrZnVhKKVXxAVQHGVKd2VHcqVHEnVJnqVOuAVWOgVfevVq61V--bW9VfWI_nWQh2WWCUWYzyWZ5OWWIWWR4uWJXrWASN',
    1744: 'W097VrbeVhCHVXwnVQ6qVKaEVHPwVH9UVJZ3VOn3VWAPVfXsVpxuV-vTW9RiWIz5WQi_WWC5WZ3_WZ67WWPfWR4hWJdUWAQ2',
    1745: 'W0CSVrXQVhDuVXrcVQ83VKV6VHS7VH4qVJcfVOiRVWEoVfTJVq0eV-sBW9W8WIxQWQloWWB4WZ4NWZ4iWWNgWR1_WJZUWALk',
    1746: 'W075VrRtVh88VXm2VQ36VKREVHOqVH40VJasVOkqVWCnVfX1VpyGV-vNW9PwWI-FWQfzWWEIWZ0QWZ8-WWL_WR7kWJZcWASe',
    1747: 'W07xVrZ5Vh8WVXsBVQ1TVKUNVHJyVH2pVJSsVOe_VW35VfN0VpoIV-hkW9GcWIl2WQZ2WW0wWYzjWY_rWWOHWR3MWJgDWARk',
    1748: 'W0GmVrZ2VhGmVXqUVQ7HVKPqVHMwVGxZVJTWVOWUVW2WVfFgVpnWV-dOW9FPWIjaWQWwWW1PWYwcWZ1DWWKJWR4nWJbgWASn',
    1749: 'W0BtVrZXVhBWVXqMVQ1SVKPPVHGNVGxYVJMWVOXlVVxuVfIrVpikV-iXW9DSWIpAWQWYWW5FWYwEWZ2tWWJgWR5UWJbSWAUK',
    1750: 'W0D5VrdDVhEpVXwNVQ6kVKWiVHM-VH2DVJTBVOb1VW0kVfGQVpkRV-abW9CTWIeKWQUBWVvoWYt6WYtgWWGFWQwzWJYmWALJ',
    1751: 'W0CbVrWrVhHcVXtGVQCjVKWHVHUTVH2wVJZoVObrVW4eVfH3VpkMV-auW98VWIf1WQOkWVyWWYo-WYzCWWEPWR2XWJXxWASg',
    1752: 'W0ARVrbxVhCkVXvYVQ5FVKWdVHLPVH2ZVJQMVObjVVyMVfHjVpe_V-cFW96oWIgMWQQNWVzoWYtTWY_4WWKqWR4xWJe-WAV4',
    1753: 'W0GuVrdYVhHnVXvvVQ9CVKW8VHPpVH2IVJWzVOcLVW5jVfJIVpqAV-ePW9HNWIhvWQXVWVzDWYvvWYxzWWJjWR0MWJclWAQe',
    1754: 'W0FiVraVVhIcVXuiVQBwVKWxVHTxVH5YVJc1VOidVWApVfS8VptmV-oLW9J3WIrpWQXtWW6AWYvMWZ3bWWIdWR7MWJbwWAYK',
    1755: 'W0G8VrjsVhKZVY38VQDwVKg0VHTXVHAkVJXxVOiuVW4CVfOHVpnIV-hxW9EqWIkhWQWzWW0DWYxwWY_gWWNtWR5AWJihWAX5',
    1756: 'W0NKVrijVhROVY1eVQKNVKe9VHZqVH8CVJduVOfXVW9bVfLDVpscV-hNW9KeWInxWQdGWW6bWZ1jWZ6nWWRYWRAPWJj3WAYv',
    1757: 'W0KEVrh9VhLqVX-EVQE1VKbDVHUKVH7vVJa0VOiuVW7CVfRmVprSV-q1W9L5WIxQWQfCWWFdWZ4fWZF3WWV1WRI1WJmKWAfm',
    1758: 'W0MZVrnAVhN6VY3dVQEwVKgSVHV_VHD7VJd5VOmjVWAnVfRvVpttV-l9W9LXWIopWQeYWW5-WZ4KWZ6aWWWLWRBvWJq4WAcC',
    1759: 'W0SeVrlSVhUYVY2XVQMPVKelVHcEVHA5VJhNVOj7VWDHVfPAVpuLV-joW9JNWIogWQahWW7tWZ19WZBYWWVaWRJwWJrSWAlS',
    1760: 'W0U3VrtIVhTXVY6rVQH9VKelVHSLVH6fVJUBVOeMVV_fVfLdVpjvV-j2W9E7WIpzWQZgWW9ZWZ2jWZD7WWYZWRLiWJvNWAo6',
    1761: 'W0YvVrxAVhZ0VYBHVQMiVKiaVHXaVH8oVJZKVOePVW5FVfJvVpqFV-gXW9KlWInKWQexWW5nWZ4SWZ6oWWWUWRD8WJrVWAfJ',
    1762: 'W0W9VrqRVhZZVY87VQR3VKj1VHeTVHBmVJgKVOiVVW9qVfNvVpqZV-jqW9HJWIqoWQaQWWARWZ0aWZCDWWSyWRIJWJneWAk5',
    1763: 'W0SGVrvhVhWUVYEIVQObVKpEVHbCVHG7VJaZVOi-VW0wVfJaVpfoV-b6W96fWIfPWQS3WV_cWYyiWZ4kWWTwWREOWJrdWAhl',
    1764: 'W0WTVrsbVhZ1VY9bVQPoVKjiVHcgVHAlVJdSVOdzVW4_VfEoVpk7V-XBW9ARWId0WQUaWV-SWYzaWZ41WWTNWRDMWJplWAfL',
    1765: 'W0SnVrnnVhS_VY2HVQHoVKbSVHUEVH4NVJWTVOc1VW0NVfHoVphDV-dLW985WIjWWQRUWW2wWYv2WZ6AWWN-WREWWJkcWAh7',
    1766: 'W0OiVrqtVhPzVY6IVQFGVKfUVHRsVH7ZVJUIVOdLVV-UVfG1VpfNV-XXW95aWIZtWQO4WVsqWYqyWYv9WWK1WR2EWJiIWAXG',
    1767: 'W0PPVrkPVhT-VY2iVQLLVKckVHXdVH3JVJXqVOX4VV_cVf9VVpeoV-SjW93kWIXcWQLVWVtDWYoUWYxdWWHpWR5QWJfTWAZF',
    1768: 'W0KkVrjvVhMtVX_ZVQBkVKXXVHLeVGyzVJJsVOQlVVm_Vf4hVpSNV-RBW8yLWIZgWQJWWVxYWYqCWZ0ZWWKjWR9OWJhSWAbk',
    1769: 'W0L6VrlCVhM2VY0PVQAtVKYfVHM9VG-eVJMlVOSOVVsFVf5BVpY_V-PxW93DWIXFWQPoWVuRWYu-WYyWWWNiWR4KWJj8WAVo',
    1770: 'W0MGVreyVhNYVXwkVQDYVKUcVHQUVGy-VJSLVOTEVVxTVf7fVpbVV-SqW926WIaaWQMrWVzHWYsfWZ3ZWWNDWRDTWJkWWAgQ',
    1771: 'W0OmVrq3VhPtVY4mVQDqVKbuVHNBVH0eVJL5VOTHVVnOVf4pVpQrV-NmW8unWITwWQGBWVsxWYqJWZ0DWWQ9WRESWJr_WAk-',
    1772: 'W0YaVrvsVhZLVY9RVQLNVKe3VHSiVH01VJPaVOQXVVs9Vf1JVpWtV-LRW908WITmWQNUWVtvWYvkWZ0mWWTOWRE8WJt-WAk4',
    1773: 'W0aJVrumVhbMVY8UVQNeVKdYVHUsVH0XVJRTVOTCVVtuVf79VpYYV-UJW91tWIeLWQP1WW27WYwGWZ98WWSQWRKoWJsCWAqa',
    1774: 'W0ZKVs0zVhceVYJQVQRiVKqxVHa-VHEUVJXdVOeUVVy0VfD4Vpa2V-TzW91MWIZ7WQO4WVwuWYwHWZ1yWWTdWREIWJuTWAlB',
    1775: 'W0d0VrzVVhiUVYIQVQZzVKrxVHkyVHG4VJhyVOfPVW5FVfCsVpgvV-TEW95MWIYvWQQ1WVyXWYyDWZ6XWWW-WRL4WJyHWArN',
    1776: 'W0euVs0SVhgnVYHRVQUkVKoNVHdTVHCQVJZvVOd_VV-0VfEkVpbUV-YBW92gWIfwWQQ0WW47WYzxWZDqWWZXWRS3WJ_8WAyL',
    1777: 'W0hWVs73VhiPVYN0VQVBVKsrVHdpVHGRVJc4VOiJVW3fVfJGVpkGV-bSW9CCWIgaWQXuWW1WWZ2aWZ7vWWa-WRJxWJ_AWApz',
    1778: 'W0iEVs03Vhl2VYH-VQZqVKpXVHjrVHETVJigVOhiVW9sVfKMVpp1V-eNW9EfWIkkWQXxWW6IWZ11WZCtWWYeWROxWJynWAvM',
    1779: 'W0gjVs6OVhkaVYOkVQYtVKuwVHg0VHGkVJaHVOg2VVzGVfFeVpbCV-YjW93FWIflWQQjWW2jWY-8WZBCWWZ8WROuWJ-vWAvv',
    1780: 'W0iZVs6JVhl2VYNWVQYFVKsbVHf3VHD5VJZjVOaqVVzbVf91VpctV-SFW971WIblWQWaWW1IWZ45WZA8WWd3WRLvWJ_eWApf',
    1781: 'W0f_VrytVhg8VYCJVQScVKhmVHaEVH4eVJWSVOW7VVxbVf8RVpaxV-UoW94CWIgDWQTMWW7CWZ1ZWZH6WWbKWRTHWJ-4WAwm',
    1782: 'W0dwVs3EVhdDVYHtVQP2VKmwVHWUVH9RVJSCVOZ8VVrvVf7hVpTSV-OvW8xAWIVTWQK3WVwHWYw7WZ5HWWXFWRKRWJzcWAr9',
    1783: 'W0gBVr_pVhgeVYEtVQRzVKiWVHXuVH2eVJSKVOQLVVrRVezxVpSUV-FTW8vFWIN8WQGtWVpqWYs_WZ1zWWWDWRKhWJ_0WAtL',
    1784: 'W0iRVs1RVhhPVYDjVQPDVKddVHQlVGwvVJHbVOILVVfDVeuSVpHEV-E5W8mzWIPXWQBdWVtmWYpAWZ5cWWShWRN_WJy4WAxa',
    1785: 'W0gsVs7LVhhHVYK-VQPxVKl2VHRQVH12VJHuVOMHVVf-Vev-VpJBV-CvW8phWILoWQEIWVngWYqEWYycWWR4WRCRWJupWAlX',
    1786: 'W0eRVrzWVhiBVYFHVQVNVKjgVHalVH2OVJSgVONwVVp4VewSVpOZV-CRW8q_WILPWQCwWVojWYoOWY_fWWPgWRGcWJtbWAps',
    1787: 'W0dSVs1_VhhjVYJ-VQUvVKoBVHY_VH5zVJO3VOPVVVgUVev9VpCmV-8jW8edWIGZWQ2XWVkTWYh_WY-5WWO4WRIPWJvJWAtW',
    1788: 'W0faVs56Vhi7VYLRVQTlVKoTVHX_VH63VJPDVOPvVVkkVevMVpJPV-85W8mYWIFaWQAbWVj6WYoZWYxXWWSSWREPWJxxWAo8',
    1789: 'W0guVr-KVhiFVYDRVQT8VKgMVHXoVG_pVJQqVONoVVovVeyhVpP6V-FgW8rGWIOXWQCcWVrOWYn-WZ2RWWQ8WRKMWJvAWAuF',
    1790: 'W0evVs5UVhhZVYLlVQTNVKpOVHYEVH8tVJQRVOVaVVn1Vf24VpMJV-H_W8oGWINFWQ9WWVmtWYkzWYyGWWNmWREKWJuCWApz',
    1791: 'W0g7Vs3uVhlDVYMVVQYhVKqkVHdjVH8jVJVLVOTBVVrgVe-6VpRJV-EMW8uBWILoWQGBWVo0WYrwWY_HWWUaWRHlWJztWArj',
    1792: 'W0jSVs2gVhlhVYIIVQWSVKkPVHZCVH1eVJP7VONGVVkqVexZVpLTV-GnW8rFWITaWQHBWVziWYvhWZC7WWYbWRTOWK0IWA_I',
    1793: 'W0jlVsAKVhkIVYOqVQUWVKqwVHX-VH8nVJPTVOUfVVn8Vf27VpPeV-KyW8wLWIUnWQMhWVypWY_LWZ9-WWdyWRQLWK55WAxd',
    1794: 'W0o3Vs6WVhofVYLYVQZpVKonVHe_VH7-VJYBVOUcVVw5Vf1uVpWrV-KaW8-tWIUwWQO_WV-dWZ1UWZEfWWhnWRY2WKB4WB5M',
    1795: 'W0vSVsGZVhvcVYTgVQdiVKt8VHdxVH8JVJRnVOS5VVlJVezxVpJgV-GLW8nvWIRIWQEOWVyTWYwjWZFNWWfpWRcjWKDVWBDW',
    1796: 'W0-JVsQAVh-QVYcXVQgrVKzeVHeuVHBfVJRQVOSbVVlhVeygVpMOV-EMW8tNWIPcWQLhWVwmWZ1UWZCJWWkbWRXyWKGgWB7o',
    1797: 'W111VsKUVi1fVYXVVQkxVKvMVHjYVH7xVJV_VOPfVVpjVexfVpPgV-G0W8vCWITCWQLWWV_EWY_aWZGZWWh2WRbCWKC3WBAb',
    1798: 'W0yoVsOGVh_LVYdZVQlFVL2CVHloVHIPVJXdVOYfVVncVf08VpI-V-F2W8laWINdWQBHWVtBWYstWZ8gWWb0WRV1WK8VWB6X',
    1799: 'W0xEVsMPVh_bVYdiVQnAVL3RVHoyVHJPVJblVOYHVVsBVez4VpMjV-95W8nxWIGTWQCnWVmtWYubWZ4bWWd_WRSzWKC5WB49',
    1800: 'W0zDVsHBVh-FVYUfVQiCVKtVVHhVVH6xVJTdVOODVVl1VetkVpH1V-8dW8jEWIJcWQ8pWVrtWYquWZ9lWWZwWRXgWK7pWB8u',
    1801: 'W0v7VsL_Vhw1VYZCVQdeVKxnVHczVHBVVJQ4VOTaVVjjVezkVpINV-DKW8laWIKQWQ9-WVnuWYpoWZ1lWWWkWRNPWK3qWA-d',
    1802: 'W0s7VsDfVhvEVYTOVQfEVKtrVHgTVH8HVJUrVOQ2VVomVevUVpMzV-9TW8pLWIHgWQC5WVluWYq5WZ0BWWV-WRMGWK31WA-6',
    1803: 'W0sFVsD-VhwHVYTnVQfYVKskVHdiVH4VVJNMVOJjVVcXVenzVp7uV-2qW8azWIDtWQ1BWVlJWYj4WZ23WWRoWRPdWK07WB1o',
    1804: 'W0o-VsG-VhrwVYV_VQaZVKuSVHYhVH5UVJIpVOJUVVZOVemLVp7BV-08W8dOWIBTWQ6qWVjoWYq8WZ04WWXfWRLIWK2zWAw7',
    1805: 'W0oSVs6KVhp2VYJvVQXLVKi_VHXFVGyKVJK7VODJVVcvVejNVpBTV-06W8gYWIDIWQ80WVnCWYqXWZ59WWYEWRRMWK3gWB06',
    1806: 'W0opVsBUVhooVYOGVQWdVKnSVHWLVH1YVJIKVOIRVVYbVemSVp3kVz_nW8WMWI9WWPzBWVhQWYhKWZ08WWSdWRPRWK2FWB1x',
    1807: 'W0qcVsFzVhrtVYTFVQYxVKqZVHWmVH1eVJHmVOG4VVYxVeiRVp5hVzwXW8ZUWI3xWQ13WVciWYm0WYzKWWYnWROpWK9mWB2H',
    1808: 'W0yFVsFUVhxzVYQFVQb-VKkCVHW5VGuSVJE6VO6ZVVUNVecFVp2RVzw6W8YLWI90WQ1YWVk-WYmiWZ61WWYWWRWpWK90WBAR',
    1809: 'W0yJVsOpVhzZVYb4VQevVKw4VHZQVH4TVJGoVOHfVVWBVelmVp46V-1NW8aWWIDPWQ44WVmEWYojWZ49WWY-WRSOWK85WB5B',
    1810: 'W0xcVsL6Vh_CVYakVQkKVKzNVHijVH9zVJSZVOMfVVhrVenpVpDcV-0dW8hgWIBrWQ9kWVlpWYuCWZ5tWWfCWRVnWKEwWB97',
    1811: 'W12gVsOrVi61VYdfVQq1VK_0VHmEVHABVJSsVOLiVVeCVem5Vp68Vz-mW8YDWIBBWQ1IWVnpWYp6WZBTWWeEWRerWKGvWBJr',
    1812: 'W14wVsYeVi6NVYlKVQoJVL4-VHjbVHFUVJQwVOR2VVebVerSVp9eV-3BW8e9WIDqWQ8KWVoNWYvgWZ9lWWjJWRb5WKKQWBEd',
    1813: 'W179VsSPVi7cVYeMVQp8VKz-VHlOVH9fVJVCVONfVVlsVerLVpIyV-6DW8n2WIIAWQEGWVsOWYyTWZDDWWkKWReWWKLIWBIk',
    1814: 'W19FVsXnViBMVYkwVQtoVL5AVHpTVHGfVJWoVOTSVVjVVev4VpCaV-7cW8eKWIHVWQ4uWVprWYpCWZ9YWWbwWRbDWKEZWBHL',
    1815: 'W14nVsZ2Vi99VYoLVQssVL8pVHoDVHIMVJUnVOSRVVhsVergVpCUV-2cW8gMWICWWQ9MWVmIWYvXWZ7LWWijWRYvWKK4WBD5',
    1816: 'W17kVsR_Vi9NVYelVQr3VKzeVHlFVH6dVJRBVOHPVVeFVejYVp9wVz_aW8fRWIEyWQA3WVt3WYxMWZG6WWkGWRhEWKKAWBJg',
    1817: 'W15yVsWVVi5xVYhqVQmpVL0jVHhJVHB7VJO3VONPVVbWVepiVp6-V-42W8cGWIGYWQ6oWVrhWYuCWZCtWWhUWRdOWKHlWBG0',
    1818: 'W13mVsTMVi43VYfOVQliVK-_VHhjVH9_VJQbVOM7VVfaVemjVpB0Vz-lW8fIWIA5WQ8wWVlrWYwOWZ97WWlCWRcaWKNyWBHo',
    1819: 'W1C3VsWCViCPVYgeVQr5VKyHVHhsVH2YVJKuVOBVVVVHVebjVozxVzrSW8R7WI3TWPxlWViXWYm0WZ9WWWeYWRgiWKKoWBOr',
    1820: 'W1A_VseUViBlVYoeVQpXVL2pVHeNVH6rVJFOVODXVVPFVecTVovyVzrpW8QYWI3JWPzaWVglWYnuWZ52WWeiWRZXWKJ5WBGE',
    1821: 'W18gVsWBViAFVYhwVQpxVKz-VHh7VH3JVJK5VOAGVVUvVeZ1Vo_cVzo-W8VTWI1ZWQ0qWVfsWYpLWZ4MWWeWWRYKWKHqWBEc',
    1822: 'W17aVsVEViArVYiyVQs-VL1kVHlwVH96VJO1VOFvVVUYVebyVouvVznwW8JhWHzbWPpIWVaxWYcoWZ0IWWUMWRWAWKA3WBEQ',
    1823: 'W11XVsWhVi61VYlgVQp6VL54VHijVHCKVJLrVOITVVT_VecqVovkVzlqW8L2WHuqWPrQWVVbWYgVWYy8WWZpWRTDWKFwWBAt',
    1824: 'W15bVsQTVi6hVYbqVQmPVKuRVHeLVG-xVJH-VO6nVVSKVeVNVowwVzjvW8NyWHxGWPu6WVaIWYhwWZ1MWWZqWRY6WKFGWBFX',
    1825: 'W14wVsUnVi5qVYfYVQkzVKxsVHcTVH3JVJGKVODJVVRSVedtVowfVzsfW8NkWI1pWPsjWVcfWYePWY_aWWUUWRU2WK9OWBBd',
    1826: 'W109VsT0Vi3OVYgWVQkzVK-fVHeIVH6LVJJYVOFFVVVvVedyVp0KVzrEW8UdWI07WP-PWVbQWYl_WY-fWWbYWRTFWKGHWBB5',
    1827: 'W17SVsSmViApVYfhVQr3VKxiVHh5VG_zVJHbVO5mVVPWVeToVotNVzjVW8LYWHz3WPtgWVdlWYilWZ5FWWa_WRbyWKGYWBJg',
    1828: 'W16nVsZsVi8dVYlSVQo0VL15VHdnVH5XVJE9VOBEVVM9VeYtVorSVzoRW8MkWI27WPyJWVijWYpZWZ9OWWhtWReBWKLVWBJC',
    1829: 'W18qVsWmVi8BVYgjVQmjVKyFVHdxVH1yVJHUVO9DVVSaVeXcVozNVznNW8USWI1RWQ2vWVi_WYvWWZBEWWoAWRhYWKSZWBNL',
    1830: 'W1GIVsakViFRVYk0VQtIVK_4VHjSVH4aVJKwVOBXVVSSVeYvVouEVzmZW8KVWH-dWPsgWVfoWYk8WZ9uWWgAWRk5WKPCWBUU',
    1831: 'W1HAVslRViIfVYvuVQwFVL9QVHk6VHBtVJJJVOFwVVQUVebDVotsVzmxW8LyWHytWPvVWVczWYoXWZ7fWWmPWRj4WKWdWBU4',
    1832: 'W1OZVskUViOkVYtBVQ-4VL42VHlYVH3lVJJ6VO6GVVQ9VeSrVovKVzj5W8Q0WH-EWP-aWVhEWYsOWZC4WWo5WRmcWKXDWBXV',
    1833: 'W1PqVsozViRuVYzUVR3EVLCJVHrkVHDdVJOrVOH5VVTzVedJVowAVzrkW8ORWI4bWPxmWVkwWYoNWZCkWWiVWRkoWKQOWBUx',
    1834: 'W1JLVso2ViNoVZ01VR2uVLIXVHv6VHLwVJUhVOOgVVaXVehSVp02VzrJW8T7WI0sWQ0BWVgeWYtkWZ9iWWp7WRj5WKXjWBTf',
    1835: 'W1QZVsmDViU2VYymVR7TVLDOVHxcVHEpVJUgVOFxVVXlVeYMVownVzjUW8LxWHxSWPuVWVejWYnlWZBuWWm4WRojWKW-WBag',
    1836: 'W1Q1VssAViRuVZ0eVR3NVLFwVHsSVHHcVJPfVOK8VVTjVee0VouUVzpuW8LnWI0_WPvLWVhPWYnpWZB8WWkWWRlHWKTrWBVj',
    1837: 'W1LjVsmXViMpVYweVQ-5VL9sVHoJVHCIVJObVOGUVVWuVebxVo_4VzobW8TfWH_fWQ06WVfAWYs6WZ7bWWmbWRgtWKV6WBRP',
    1838: 'W1NjVsjIViQOVYurVR2yVL8-VHstVHB2VJQbVOD_VVUrVeYQVouTVzkMW8JDWHxHWPpvWVbMWYfrWZ4WWWb6WReuWKL1WBR6',
    1839: 'W1FXVsl0ViK4VYy8VQzcVLCYVHmzVHDOVJJHVOENVVMsVeX8Von-Vzi6W8FkWHuZWPprWVZ8WYizWZ3DWWfkWRd0WKOLWBMd',
    1840: 'W1FSVscyViGEVYmtVQtAVK_JVHfwVG_XVJDIVO0lVVIoVeL1VomYVzZtW8HQWHrUWPtnWVaDWYndWZ6MWWjxWRgJWKRTWBOk',
    1841: 'W1H6Vsd9ViGMVYlTVQsFVKzaVHenVG_KVJCZVO3LVVHtVePVVojYVzdyW8BpWHuAWPmmWVbRWYgEWZ6ZWWcvWRgTWKLEWBPc',
    1842: 'W1BiVsezViBdVYo1VQn_VL0UVHb1VH23VJ9gVO5FVVGNVePeVojQVzbDW8CHWHodWPnvWVVAWYj3WZ1oWWiJWReQWKTVWBQK',
    1843: 'W1M6VsgzViLwVYoVVQvMVKypVHdcVGv1VJ77VNtpVVA1VeA_VobhVzP1W84jWHgbWPhBWVRdWYeIWZ2pWWgZWRjTWKUnWBX-',
    1844: 'W1PFVspUViPUVYwaVQy0VL3aVHe4VG-GVJ4pVNxuVV5QVeEpVoWlVzTpW81wWHmMWPgZWVWDWYdcWZ4JWWe4WRhuWKQPWBUt',
    1845: 'W1KEVsmsViLUVYvsVQwFVL55VHf5VH1GVJ8XVN-_VVBIVeGWVodiVzTMW895WHkbWPnpWVUXWYkoWZ2_WWklWRgUWKWcWBTQ',
    1846: 'W1QqVsmJViTlVYxPVR4_VL98VHrSVH6PVJJeVO2vVVHrVeHXVodTVzR2W826WHgAWPd2WVQaWYaAWZ1gWWchWRiQWKRRWBXw',
    1847: 'W1NfVssCViRZVZ1tVR33VLFlVHpOVHDFVJHZVO9xVVF-VeO1VocIVzVtW81nWHiSWPdgWVR2WYcTWZ2AWWgzWRjaWKWSWBYj',
    1848: 'W1RPVsr3ViSUVYzpVR17VL9CVHmVVH5vVJGTVO3fVVIgVeK9Voj5VzVGW8BYWHkpWPnsWVUWWYkmWZ50WWn3WRlgWKbkWBar',
    1849: 'W1X7VstZViYoVZ0PVR7OVLBlVHsDVH9AVJLsVO9EVVNtVeSUVomvVzeeW8ChWHtAWPm3WVaDWYfvWZ7OWWfbWRlnWKTGWBav',
    1850: 'W1PpVsvpViUFVZ5tVR5uVLJpVHsgVHI0VJMsVOGyVVPDVeYGVopjVziTW8HSWHv4WPsQWVawWYnJWZ7TWWnIWRlSWKasWBaU',
    1851: 'W1XGVsvLVibBVZ4aVRBRVLGQVHvsVHBCVJMuVO6EVVM9VeLRVolGVzXRW8DzWHowWPrEWVaOWYomWZBZWWqkWRrmWKeZWBgD',
    1852: 'W1ZUVsyqVibSVZ66VRAPVLHOVHuIVHD6VJL2VO9qVVJgVeQWVoiGVzdpW8B_WHwgWPrEWViHWYpkWZI1WWr0WRvqWKcjWBhY',
    1853: 'W1UwVsxoViUiVZ3qVR36VLFJVHoaVHCTVJIkVOAuVVLUVeS1Vom-VzdgW8HaWHuNWPx6WVfUWYwOWZG6WWyfWRv6WKlEWBhb',
    1854: 'W1dqVsxtVidMVZ3LVRB4VLDzVHvIVH9gVJN5VO6DVVMMVeLkVojVVzW6W89AWHlyWPl7WVXvWYkBWZBcWWpKWRv1WKgCWBls',
    1855: 'W1cdVt2zVid-VZAqVRAoVLJdVHs5VHCrVJGoVO7bVVECVeMPVobeVzWoW83HWHm8WPhBWVW_WYhxWZAOWWomWRuDWKgbWBlM',
    1856: 'W1cuVt24Vid4VZ8VVR7-VLEwVHnXVH5XVJBjVN-RVVAWVeCzVob3VzPNW86lWHiOWPnSWVVdWYnrWZ8bWWsPWRqzWKiiWBhU',
    1857: 'W1fCVs-yVigxVZ73VRDiVLFKVHuLVH7NVJICVO1MVVF1VeGFVobWVzRhW82OWHjNWPfxWVVlWYelWZ7jWWi2WRotWKXNWBew',
    1858: 'W1UCVszfViY8VZ8qVR8RVLKpVHsOVHFRVJHpVO9IVVELVeLhVoaIVzTNW80uWHhAWPeqWVRhWYfZWZ4PWWlTWRnDWKcYWBe8',
    1859: 'W1ZLVsy6VibNVZ4vVR8tVLDsVHqOVH5WVJEEVNylVV9kVe7YVoVFVzFvW7y7WHWOWPagWVKQWYcjWZ13WWkwWRnKWKe7WBfr',
    1860: 'W1bRVsz4VicLVZ3-VR7yVLBNVHnwVH3FVJBGVNyvVV71VeAzVoSmVzLvW7vzWHdXWPYRWVQGWYZ2WZ3_WWfAWRneWKWoWBew',
    1861: 'W1TaVsyDViUgVZ3cVR0jVLBPVHhUVH3kVJ6kVN-BVV5xVeCyVoVTVzNCW7-uWHcqWPdxWVNeWYe1WY_gWWj0WRi7WKZyWBZH',
    1862: 'W1XAVsthViZjVZ0pVR7OVL9gVHoSVH0yVJBcVNuaVV74Ve4lVoSjVzEAW7urWHUTWPVgWVH3WYVJWYxSWWbJWRgGWKU4WBZc',
    1863: 'W1TVVsvwViX-VZ4OVR6XVLDmVHn4VH4_VJ8cVNyAVV21Ve7sVoMmVzHSW7qFWHYYWPTzWVLzWYWbWZ0zWWe9WRl3WKVsWBb-',
    1864: 'W1S6VsuxViSvVZ0HVQ-sVL7gVHeyVG-HVJ2JVNrnVU_6Ve29VoNuVzDCW7veWHW-WPcvWVN2WYh3WZ3BWWoQWRn8WKfHWBd4',
    1865: 'W1aLVsudViZ-VY-uVR5JVL6DVHlcVG-6VJ9kVNtyVV6eVe6MVoT0VzHXW7wCWHaCWPZVWVPZWYbrWZ5uWWjFWRqpWKbDWBiB',
    1866: 'W1XpVs_CViYsVZ6eVR54VLEjVHlbVH6tVJ9GVO0EVV5ZVeDXVoSDVzMsW7w4WHchWPa0WVPyWYd_WZ6bWWoEWRtpWKjOWBn-',
    1867: 'W1iBVt6NViiyVZCHVRCDVLG8VHoPVH2nVJ8DVNt8VV2UVe1hVoPTVzBrW7vTWHVAWPbdWVMEWYh8WZ66WWs_WRw3WKq2WBs9',
    1868: 'W1qRVtBcVisFVZHvVRLZVLLOVHwQVH7FVJDtVNxVVV5fVe79VoQlVzJKW7wFWHelWPccWVW0WYgzWZDQWWpyWRzpWKk2WBtY',
    1869: 'W1jCVtCzVim2VZLJVRI2VLRrVHw2VHGGVJG3VO5NVV9eVeFyVoW3VzPGW807WHhNWPj5WVWtWYoSWZDjWWxmWRzPWKrAWBsE',
    1870: 'W1pZVtBXViskVZL7VRQWVLTcVI4WVHIjVJQhVO5-VVHXVeCnVoZ1VzIdW7zuWHY-WPd4WVP9WYhjWZ96WWtHWRyrWKpsWBue',
    1871: 'W1qMVtEvVitxVZNwVRQoVLVVVI3YVHKsVJO_VO9eVVFIVeH-VoW1VzOLW7wUWHeQWPa3WVTtWYfhWZDQWWsFWS0tWKoqWBxl',
    1872: 'W1nmVtFtVioLVZLmVRH-VLQQVHv7VHENVJFyVO3uVVAjVeEOVoXFVzMrW80UWHe7WPiUWVTXWYnlWZBeWWyZWRzfWKu2WBu6',
    1873: 'W1t1VtCaViu9VZIuVRO3VLNYVH-_VHBWVJLaVO1uVVG5VeE6VobMVzNvW81VWHf7WPfQWVTOWYh6WZ9-WWpQWRwrWKj_WBrN',
    1874: 'W1jyVtBWVinVVZKPVRJvVLRMVHy0VHGHVJHlVO5zVVAOVeGxVoV9VzQ2W7yoWHgbWPcmWVTvWYg8WZ9yWWpgWRwnWKkrWBrT',
    1875: 'W1khVtBGVin0VZIeVRHJVLMoVHsuVH7tVJAKVNvLVV1cVe11VoMnVz9zW7tNWHULWPbsWVNDWYjIWZ7sWWvIWRwvWKqwWBr8',
    1876: 'W1pNVt8qVipkVZE7VRINVLH6VHsqVH2CVJ9PVNqxVU_iVd-nVoJRVzA5W7osWHWkWPX8WVR7WYeZWZBjWWpeWRzHWKjOWBrL',
    1877: 'W1fkVt75VieYVZBRVR6yVLF2VHihVH24VJ1bVNssVUwZVe1XVoGfVzBKW7n9WHUpWPW7WVNFWYfDWZ8CWWslWRxUWKomWBrN',
    1878: 'W1mUVt8FVilfVZClVRDgVLFOVHoJVG_vVJ5CVNmrVUxFVdtLVoDrVy-9W7gqWHGPWPMwWV9WWYVUWYzfWWlhWRrwWKmMWBqq',
    1879: 'W1oYVtB1Viq4VZG6VRHKVLGtVHopVG_1VJ21VNkxVUrBVds5Vo6CVy-YW7ZFWHITWPGPWVCDWYPsWZ05WWgUWRtuWKhBWBsa',
    1880: 'W1jIVtCnVikcVZHeVRBKVLHbVHi9VG-QVIxJVNj7VUmAVdpyVo4tVyywW7cTWHHxWPNOWVCJWYX-WY_1WWnEWRqrWKmHWBoS',
    1881: 'W1o3Vt9FViqhVZG5VRJpVLISVHsyVH0yVJ7CVNm0VUwyVdrqVoC5Vyz1W7edWHGRWPKyWVAHWYSyWYzIWWh5WRpDWKfhWBmt',
    1882: 'W1hyVt8cVimXVZHxVRIiVLNsVHuoVH9kVJAFVNwMVUyqVd_WVoBpVz4mW7cqWHLfWPInWVDYWYRrWZ0XWWiLWRu1WKjCWBt8',
    1883: 'W1m0VtEVVionVZLMVRHvVLNwVHrQVH6cVJ5vVNqkVUvFVdu5VoA1VyycW7dRWHEhWPL_WV92WYXJWY-hWWpiWRuNWKryWBuQ',
    1884: 'W1v4VtFLVix3VZKtVROmVLM5VHx1VH4bVJBCVNqZVU_9VdxcVoGPVz3yW7i-WHO2WPPJWVHvWYXTWZ5AWWmSWRy0WKm7WBwE',
    1885: 'W1oHVtGwViqnVZNQVRJoVLQHVHtbVHApVJ9RVNysVU_QVe5VVoJGVzD-W7nzWHWAWPVAWVNEWYdGWZ84WWrkWRzRWKquWBxJ',
    1886: 'W1t8VtIoViwaVZQnVRQvVLUMVH_6VHDIVJFlVNxWVV3PVd_fVoKmVz5LW7nxWHNXWPUbWVGJWYcsWZ3SWWsEWRw_WKsrWBwa',
    1887: 'W1wXVtJ3Vi-tVZRFVRV5VLUQVI2DVHD3VJH8VNxhVV2kVe1AVoIJVz8tW7l2WHTkWPTGWVPJWYdoWZDxWWtvWS4cWKsmWC1H',
    1888: 'W1s_VtM0VitcVZQwVRLAVLSKVHtdVHAvVJ7sVNwVVUyZVe1KVoGiVzAGW7oNWHW1WPakWVSLWYnrWZHDWX2qWS7YWL1DWC39',
    1889: 'W1_zVtMIVi-iVZPcVRQxVLQ5VHzPVH8pVJEvVNvBVV4SVe04VoN6Vz82W7r6WHSUWPZFWVO9WYjnWZDvWW-jWS6HWK-tWC4D',
    1890: 'W1_vVtPBVj0NVZTSVRT6VLU7VH-jVHCiVJEJVNy-VV1cVe40VoIZVzB-W7lpWHVsWPU3WVQiWYfhWZGmWWz5WSBIWL0VWCC9',
    1891: 'W23uVtYYVj42VZb9VRTYVLXBVHw7VH9VVJ58VNp_VUsaVdtcVo97Vy_2W7gKWHKwWPT7WVInWYi2WZBFWX1JWS7MWL5tWC9I',
    1892: 'W2AKVtWiVjBcVZaFVRboVLWSVI1xVH7tVJBDVNnEVUwOVdqzVoB5Vy-NW7gsWHMcWPS8WVLhWYfBWZDRWWxlWS7EWKzdWC79',
    1893: 'W20yVtUSVj3RVZa3VRWUVLZmVH_lVHEfVJAqVNvmVUviVdynVo91Vz3fW7doWHOlWPP7WVLYWYdGWZCYWWx4WS6FWKzIWC5y',
    1894: 'W20HVtTIVj2sVZZnVRX4VLabVI1lVHFEVJDLVNtmVUw-VdrnVo7BVytAW7YZWH9AWPHvWV5-WYW9WY_ZWWsSWRzMWKyMWC0k',
    1895: 'W22GVtPtVj5rVZWCVRZKVLW3VI2rVHAcVJDhVNqdVUwoVdrDVo5kVyucW7UzWHBeWPCpWV9AWYQlWZ33WWmqWS0OWKr-WC2d',
    1896: 'W1wSVtPsVixpVZTjVRMwVLRcVHr5VH5pVJ0fVNnKVUn1VdqiVo1PVyweW7VwWHE7WPGcWVA0WYUnWZ1QWWpoWRyoWKt_WB-J',
    1897: 'W1yFVtLyVi-1VZQdVRPqVLP1VHuuVH3PVJ5oVNkzVUtHVdnxVo7NVytKW7a1WHA4WPHIWV4gWYReWYwkWWk1WRrWWKnbWBte',
    1898: 'W1tCVtHBVixjVZOYVRQBVLPKVHwJVH4uVJ5-VNmfVUqqVdpuVo2fVyw8W7UlWHEEWPD1WV9oWYOgWZ08WWhxWRwwWKlrWBys',
    1899: 'W1qyVtLTVitqVZQtVRJuVLOvVHnOVH18VIwtVNfRVUfAVdgDVnu_Vyl-W7PWWH6DWPDpWV5rWYV0WY_sWWrPWRy1WKvSWByv',
    1900: 'W1yiVtJLVizPVZMxVROBVLK8VHrbVGyXVI_gVNbeVUkOVdduVn-2VylvW7TeWH8JWPGMWV9VWYWCWZ4FWWrMWR_wWKtuWB_G',
    1901: 'W1vWVtJzViu-VZMYVRJPVLKNVHnfVG_FVIzOVNhhVUjQVdm5VnzLVyu1W7SaWHEgWPFKWVE2WYWCWZ8VWWtPWS5XWKyCWC6n',
    1902: 'W1_NVtSnVi_GVZVUVRP2VLRnVHrbVH3JVI_CVNhKVUjWVdh0Vny1VykeW7Q5WH2rWPCKWV2EWYT-WY_3WWt_WS0NWL1HWC6R',
    1903: 'W28uVtVzVjBIVZZZVRacVLUAVH-TVH30VJ4bVNfGVUm4VdfgVny-Vym2W7QCWH7LWPC6WV8yWYTaWZ6OWWskWS6pWK-hWCBd',
    1904: 'W25HVtaEVj77VZdNVRWBVLXxVHvoVH6xVI_fVNjRVUhWVdkRVnwnVyr-W7S8WHE7WPHnWVFNWYarWZB7WWzVWS9RWL42WCCn',
    1905: 'W29kVtbSVjC5VZg6VRd4VLcoVI3LVHDMVJBhVNpkVUuEVdo0Vo5KVyrYW7YxWHAiWPK_WVAjWYblWZ6hWWzcWS5jWL4GWC9g',
    1906: 'W2AfVtZBVjEUVZfTVRhVVLeQVI9RVHH8VJHwVNv1VUypVduBVo6uVyxeW7XDWHGBWPHPWVG1WYYGWZCoWWxmWSDZWL4SWCIx',
    1907: 'W2BQVthoVjDLVZlFVRctVLgVVI1PVHFzVJ7tVNrbVUp0VdpkVn_oVyt4W7U3WHC5WPIPWVDHWYd3WZBvWX3HWSE8WLDIWCK6',
    1908: 'W2KJVtihVjLKVZkvVRjIVLeMVI6XVHCQVJCpVNnqVUukVdnFVo6cVyt8W7azWHDwWPMyWVEfWYdeWZBKWX00WSBIWL7UWCFo',
    1909: 'W2DrVteIVjFmVZhfVRfDVLcuVI3fVHDEVJAgVNrKVUssVds-Vo4UVyztW7YiWHKVWPKrWVJsWYbFWZEdWWz9WSDQWL4YWCI4',
    1910: 'W2BcVti0VjF4VZnMVRgBVLjQVI4mVHHhVJ9wVNr4VUpaVdn0Vn_EVyowW7SqWH7HWPGDWV7UWYYuWZ4UWWz0WS5WWL6FWCBo',
    1911: 'W2EaVtcYVjIWVZhrVRjMVLdNVI7IVHAzVJBHVNjlVUpEVdgEVnzOVykLW7PxWH5tWPDFWV9hWYX1WZ9FWWxPWSA3WL2mWCDb',
    1912: 'W27iVtaWVj89VZcgVRWjVLXAVHwNVH6FVI_iVNhtVUfgVdh1VnsRVynAW7MSWH9dWPCtWVD3WYYeWZC3WW-GWSClWL61WCF-',
    1913: 'W2AGVtc3Vj9HVZc_VRWbVLWRVHwDVH59VJ1LVNgnVUjPVdeMVnw0Vyg-W7NdWH06WPB4WV1oWYUqWZ0-WWwZWS3fWL4RWC9m',
    1914: 'W2BbVtYUVjD0VZa_VRbDVLUdVHzzVH2XVJ2qVNddVUiTVdcGVnt0VygZW7IOWH0hWP4AWV2_WYNdWZ3BWWqfWS7vWL12WCGb',
    1915: 'W2ARVtgbVjB_VZhxVRXqVLY5VHsFVH1HVIsRVNXwVUTTVdUCVnfUVyYsW79hWGwpWP10WU_7WYOmWZ0hWWu1WS5uWL55WCEm',
    1916: 'W2EkVtfPVjGyVZhjVRdcVLYOVHygVH14VIz2VNWHVUZkVdRBVnlLVyW5W7FKWGvNWP5VWU-JWYQqWY-_WWstWS1_WL0vWC8g',
    1917: 'W296VtYmVjCFVZcrVRbjVLX9VH-9VH4BVJ0pVNc_VUdPVdZOVnmPVydUW7DJWG_PWP24WV3ZWYNfWZ4BWWqiWS7XWK_MWCEM',
    1918: 'W27aVteYVjAoVZjCVRayVLe2VHzqVHAJVJ06VNgUVUbgVdYTVnj9VyX3W78VWGqeWOz7WUtgWYKbWYwDWWr3WS18WL3UWCBI',
    1919: 'W2EBVtcyVjHiVZguVRgXVLa6VI2EVH5PVJ4GVNbrVUgDVdVXVno0VyWiW7CWWGsMWO_LWUwtWYLSWY-EWWqmWS4nWL1wWCDg',
    1920: 'W2BBVtdTVjCwVZfHVRZmVLX5VHwAVH2zVIyYVNcKVUaUVdaEVnleVyfRW7E5WH16WP3JWV4NWYPDWZ4qWWtFWS96WL3JWCH8',
    1921: 'W2CGVthLVjENVZjzVRbrVLc6VHyxVH7gVJ0dVNgIVUgIVdcNVnsGVyehW7KGWGzkWP85WU_5WYRuWYz-WWu1WS1SWL3bWC9_',
    1922: 'W2DrVtc9VjIbVZhZVRipVLc0VI5BVH8BVJ7hVNg5VUkmVdcQVnuQVygeW7KrWH2NWP8KWV6VWYStWZ7PWWvmWSBiWL5PWCJo',
    1923: 'W2EWVtjyVjGnVZmLVRduVLdlVHz6VH7GVIygVNcxVUXsVdX_VniVVycuW7DQWH12WP7EWV8QWYXmWZCGWX2NWSHgWLEUWCOd',
    1924: 'W2LdVtmZVjLJVZmoVRgZVLcoVH_ZVH5vVJ0eVNbfVUduVdWYVnprVybRW7L6WH05WPE8WV81WYdLWZCHWX6sWSHlWLIDWCOJ',
    1925: 'W2OqVtlYVjO8VZlMVRjJVLbkVI2cVH6SVJ49VNeuVUhMVdcFVnrZVyhlW7JmWH5oWPAoWVDQWYZvWZIKWX4uWSPVWLIUWCYB',
    1926: 'W2R4Vtx3VjRRVZxIVRm6VLm7VI2sVHD3VJ0bVNgVVUabVdYyVnjPVyaBW7BVWGwtWP3LWV1IWYUiWZ7kWX3QWSIfWLLeWCVx',
    1927: 'W2YYVtyXVjbOVZ-6VRw9VLnrVIBQVHCBVJ6_VNciVUeuVdTfVnmaVyW0W7EUWGvOWP5uWV22WYW9WZ97WX33WSJ3WLJOWCUu',
    1928: 'W2V8VtwTVjXgVZxqVRscVLm8VI81VHBsVJ3UVNeFVUavVdX4VniMVybEW7BSWH0HWP4uWV98WYVzWZElWX2BWSMfWLH4WCWy',
    1929: 'W2RmVtyPVjUgVZ_BVRrWVLrjVI9kVHJHVJ80VNlqVUgzVdbeVnnPVyZxW7DZWGv9WP4HWU-tWYU8WZ3tWX0UWSCWWLGCWCNw',
    1930: 'W2S3VtqgVjWYVZvDVRvRVLnpVIFXVHGqVJEJVNjrVUmHVdaCVnqeVyZEW7DSWGujWP0qWU-vWYPJWZ5RWWyWWSGFWLDyWCT0',
    1931: 'W2QCVtugVjSZVZvvVRngVLkoVI42VHBUVJ0TVNe3VUXrVdVTVndyVyWZW74jWGtuWOyIWU_0WYO0WZ60WWzBWSH4WLFKWCTq',
    1932: 'W2ROVtvLVjT3VZvrVRn1VLjLVI2gVH8nVI__VNb2VUa7VdSsVnjOVyUcW7C6WGsBWP31WUy3WYRaWZ0PWWyrWS8hWLCCWCJr',
    1933: 'W2NZVtlWVjQNVZnZVRmFVLd4VI3NVH4TVJ1MVNZ1VUbTVdTdVnjoVyXgW7AoWGwpWP0aWV1VWYOIWZ5YWWuaWSCxWL75WCNY',
    1934: 'W2IOVtpbVjM5VZsoVRj2VLirVH_gVH8bVIwuVNZEVURTVdPBVnXwVyPZW6_XWGmrWOu2WUu2WYJtWY-MWWu2WS8CWL97WCKQ',
    1935: 'W2LLVtmsVjObVZpKVRkVVLeEVI0hVH2uVIy0VNSEVUSZVdHBVnZ3VyIPW71RWGiWWOx1WUtGWYNqWZ08WWxwWSA8WLBFWCJ_',
    1936: 'W2KKVtihVjK2VZhfVRdHVLV0VHuXVGx2VIqkVNOCVUMnVdHUVnUKVyM8W6zqWGoiWOuxWU-YWYMvWZ7eWWy1WSHzWLC2WCS4',
    1937: 'W2L4VtqVVjK0VZoiVRcGVLb7VHt4VH0XVIq4VNTBVUNhVdKeVnVqVyL4W6-6WGiXWOtbWUrCWYLEWYz-WWxlWSAJWLEaWCNf',
    1938: 'W2QvVtpDVjSRVZpJVRlkVLbhVH_lVG_8VIwRVNPFVURgVdF_VnYUVyHxW6_OWGhBWOsqWUrAWYJAWY_cWWwIWSEMWLFLWCU8',
    1939: 'W2ThVtwgVjVRVZvcVRmcVLf6VHybVG_7VIobVNMYVUG9VdCUVnMLVyGGW6smWGj3WOpeWUv-WYKHWZ5eWWzQWSKNWLImWCa1',
    1940: 'W2XGVu1HVjZmVa1PVRrxVLnZVI2gVH6_VIvAVNSbVUNHVdFuVnU3VyH6W6-vWGiNWOxiWUuWWYRAWZ2rWX1qWSFCWLKMWCSb',
    1941: 'W2XGVtvHVjaWVZxFVRvaVLl3VIA3VH8UVJ3FVNX5VUXcVdLtVnbhVyN0W720WGneWOxJWUzyWYPhWZ9SWX0-WSNCWLKSWCbN',
    1942: 'W2XsVu2JVjbXVa4hVRx7VLuvVIBRVHH_VJ3BVNepVUUtVdQ9VnWEVyMyW6wzWGjaWOqKWUtvWYKwWZ4WWX0EWSLcWLN_WCdH',
    1943: 'W2e5Vu5qVjhlVa7EVR_WVLvHVIETVHGgVJ6aVNciVUZzVdNyVnd4VyLLW72oWGj2WOxsWUu8WYR1WZ4XWX4JWSKWWLQBWCal',
    1944: 'W2eqVu1mVjhDVa1iVRzkVLotVIBrVHB3VJ4EVNaSVUZBVdQwVneBVyTFW75BWGtuWO-NWV32WYS5WZDPWX3IWSRDWLNeWCgP',
    1945: 'W2byVu7nVjf6Va8vVRyoVLx6VIBjVHJXVJ4YVNi2VUZpVdWJVnf8VyV5W75wWGrVWO-RWUzFWYRWWZ5ZWX2EWSIZWLMdWCYB',
    1946: 'W2bzVu1JVjhCVa4wVS1MVLv6VIH-VHHfVJAfVNeQVUeQVdRCVniRVyQfW78bWGpOWP0bWUzkWYTSWZ8HWX4PWSMVWLOoWCbj',
    1947: 'W2cuVu2UVjfTVa2mVRyJVLp-VI9nVHAwVI_rVNXaVURdVdLJVnV2VyN8W6ziWGpsWOwqWV2JWYSlWZFXWX6fWSUQWLRCWCiV',
    1948: 'W2dVVu7HVjdgVa5TVRuYVLr6VI5NVHBKVIylVNY2VURSVdLeVnXrVyM6W71-WGmlWO_JWUzmWYWnWZA6WX9oWSOEWLTTWCbd',
    1949: 'W2f7Vt_wVje_VZ-0VRw5VLkAVI7lVH5ZVJ0AVNTvVUVTVdJWVnb2VyLUW72MWGmeWOyRWU-8WYSRWZB-WX6HWSSQWLS2WCiC',
    1950: 'W2fxVu8BVjh7Va6cVRxfVLr7VI6BVH94VIvgVNTIVUJxVdFCVnMXVyEsW6poWGeeWOlVWUrSWYI5WZ4LWW_iWSNvWLPtWChk',
    1951: 'W2hWVuAuVjkaVaAGVR-qVLtQVI7uVH8XVIvrVNPMVUJTVd8RVnMZVy79W6reWGYXWOpOWUnTWYMLWZ0ZWX24WSINWLPgWCa6',
    1952: 'W2fbVu24VjiIVa1YVRzCVLloVI7BVH2ZVIvfVNLbVUJAVd7UVnLYVy93W6poWGc_WOnSWUtpWYKWWZ7MWW_eWSOCWLLkWCeI',
    1953: 'W2aGVu5OVjcqVa5VVRv7VLrmVI5KVHApVIveVNUXVUJLVdE3VnKGVyATW6lzWGYAWOhSWUkgWYENWYzGWWxEWSFOWLJZWCXQ',
    1954: 'W2ZqVu0CVjdjVa1nVRxQVLpGVI9CVH8kVI-iVNRoVUOpVdAHVnPGVy6FW6plWGU9WOjHWUhGWYExWYxVWWyTWSGBWLMhWCZ_',
    1955: 'W2diVu1vVjfeVa02VRvFVLjJVI2YVH06VIquVNJOVUDjVd4VVnEYVy4IW6h9WGWDWOdtWUm4WYBzWZ1BWWwWWSLeWLKkWCf9',
    1956: 'W2bdVu7CVjdSVa5FVRsXVLnlVH_BVH3XVInvVNMQVUDCVd7tVnHvVy7SW6nLWGXXWOkZWUkbWYH3WYyVWWyvWSE7WLKxWCWJ',
    1957: 'W2bSVt_7VjevVZ_ZVRwqVLkrVI69VH2VVIwMVNM4VULjVd81VnPRVy8mW6t7WGaPWOoIWUooWYJ9WZ1TWWzvWSJ8WLLJWCb4',
    1958: 'W2bnVu3yVjfxVa4_VRyQVLqSVI6hVH6zVItYVNN_VUE4Vd6pVnDqVy5TW6gpWGW_WOeYWUmoWYDYWZ1rWWyNWSM2WLMZWCff',
    1959: 'W2dzVu8qVjhRVa8xVRykVLtDVI6dVH8mVIuDVNOiVUGFVd5zVnHgVy3IW6mdWGVFWOmqWUn5WYNhWZ3dWX6bWSNMWLV0WCed',
    1960: 'W2jTVu4UVjjjVa1eVRyiVLkYVI61VH10VIupVNK5VUIiVd5kVnLBVy73W6pfWGbiWOopWUvEWYPFWZD4WX8YWSXrWLXXWCpb',
    1961: 'W2m6VuF9VjltVaBVVR-0VLtiVI6gVHACVIvCVNTPVUIiVdDsVnKIVyBvW6nCWGbYWOkSWUqdWYKNWZ6-WX5WWSTYWLY2WCp1',
    1962: 'W2qbVuIVVjtPVaHFVS6nVLzPVIEpVHDMVI_eVNSuVUNsVdAZVnPDVy7vW6sSWGYKWOpJWUo8WYO7WZ5HWX97WSTVWLd7WCqt',
    1963: 'W2xBVuL3Vj-8VaInVSBhVLyNVIG4VH9HVIyXVNM_VUH8Vd5JVnGwVy5pW6lPWGb6WOlqWUvOWYNfWZEGWX9AWSbcWLbxWCxd',
    1964: 'W2vBVuRlVjygVaQgVSBeVM5pVIHQVHJWVI-dVNWfVUJrVdDJVnKhVyBBW6ptWGczWOqHWUuIWYRpWZA-WXC4WSV_WLcfWCpq',
    1965: 'W2u8VuJAVjxmVaJZVSDHVM1xVIN9VHJ8VJ89VNYHVUUpVdEpVnUAVyBeW6w7WGcgWOs-WUtyWYSKWZBoWXCYWSYVWLe3WCtJ',
    1966: 'W2w6VuMZVjzgVaMJVSEQVM3mVIMbVHK4VJ51VNYQVUOGVdDeVnJmVy8hW6jEWGYWWOg6WUpfWYHSWZ8pWX55WSYSWLaTWCwY',
    1967: 'W2v9VuRSVjypVaQIVSBhVM5QVIH_VHJYVJ0CVNWlVULXVdBiVnKRVy6PW6mtWGVrWOlgWUmmWYNBWZ4nWX92WSSDWLbzWCo2',
    1968: 'W2uaVuHDVjwnVaEsVS8iVLvKVIEiVH7mVIzdVNM-VUKoVd64VnL_Vy5yW6pVWGZBWOnFWUrOWYMcWZ8xWX6IWSV9WLXaWCpx',
    1969: 'W2pcVuIzVjsNVaHPVS5PVLz6VIC9VHCeVIwmVNRuVUGCVd9UVnFRVy70W6hzWGXSWOfUWUmxWYF2WZ2sWW_SWSOsWLRlWCka',
    1970: 'W2l3VuFIVjpQVaFbVS41VLyIVIBgVHAtVIw7VNNRVUF6Vd1zVnELVxztW6hxWGPDWOh9WUh1WYIAWY_CWX3cWSMdWLW8WCh_',
    1971: 'W2o4VuAIVjpVVa76VS0dVLmbVI57VGzHVInEVN9vVU4iVcsaVn3FVxsCW6XiWGMjWOaCWUkLWYFUWZ6yWX3kWSW7WLWkWCr0',
    1972: 'W2naVuHnVjnEVaClVRycVLqtVI00VH15VIi4VNDvVU0iVcwgVn1DVxv1W6WoWGMGWOZGWUgjWYEfWZ1jWX3JWSQUWLWjWClc',
    1973: 'W2nnVuCpVjnfVa8HVRzXVLmuVI27VGzbVIlwVNAaVU5wVcs_Vn6VVxq-W6anWGI5WOaqWUcXWYEGWY-fWX3FWSQ0WLZ6WCoL',
    1974: 'W2tRVuIHVjvoVaExVS5mVLsHVI7DVG_oVIlgVN9NVT_nVcpIVmxVVxmHW6NXWGDzWOO7WUZdWY3XWYzMWWxSWSRUWLV3WCtS',
    1975: 'W2syVuQYVjxUVaOeVS7sVL_ZVI8NVH72VIlHVNDeVT-iVcqnVmxYVxlrW6Q9WGC-WOTwWUZ7WYB2WYy6WX1hWSNcWLYKWCmg',
    1976: 'W2tlVuICVjxaVaGgVS9DVLvXVICIVH3UVIroVNCBVU6pVcrCVn3-VxoLW6XbWGHOWOZQWUetWYE-WZ2sWX4iWSULWLaCWCsK',
    1977: 'W2uUVuMpVjy5VaLXVSArVM0LVIFxVHDLVIwyVNOCVUB0Vd0UVn4jVxw5W6UFWGKJWOT3WUdhWY7lWZ0AWW-zWSSxWLX9WCtN',
    1978: 'W2tnVuP-VjyrVaP_VSCVVM5HVIIKVHHsVI-IVNRkVUG0Vd2dVnBJVxwNW6bbWGJ3WOaLWUblWYEhWY-TWX6DWSSPWLfSWCtn',
    1979: 'W30HVuPbVk3aVaMoVSFnVL-QVIHyVH8MVIxXVNIFVUCsVcyOVn9IVxvMW6b8WGNEWObSWUjoWYGmWZ8CWX7_WSbmWLg7WD0E',
    1980: 'W30JVuXdVk3UVaUfVSFSVM5_VIG-VHFqVIwBVNQEVUCKVd5YVnBEVy3FW6fXWGVXWOgHWUoQWYK3WZ8bWX8rWSYfWLekWCxE',
    1981: 'W2-0VuSwVk2AVaR_VSGcVM5tVIL5VHHIVJ0qVNRhVUKPVd5hVnJbVy2SW6nyWGVQWOoUWUpMWYRKWZA1WXE-WSa2WLkAWCyO',
    1982: 'W33LVuU0Vk7wVaTDVSMLVM6WVIP4VHGFVJ0zVNOLVUFSVd0VVn9nVxynW6bgWGRWWOdWWUp6WYK2WZDeWXBQWSgTWLirWD3y',
    1983: 'W32GVuawVk5NVaYLVSHwVMA8VIJaVHI-VIxHVNQJVUAYVd1UVn6vVxyfW6bdWGQfWOgoWUohWYQIWZDnWXIgWSfrWLojWD0z',
    1984: 'W354VuUjVk4mVaPEVSE-VL_XVIGbVH8rVIwWVNIBVUCoVcx_VnBOVxvzW6gcWGQCWOkTWUpeWYSeWZGLWXL6WSk7WLs1WD6E',
    1985: 'W38xVuZqVk8GVaTFVSHDVM2GVIHBVHBAVIvUVNKqVU9ZVc-OVn4xVxweW6WkWGNyWOY2WUkQWYFKWZ9zWX9LWSfcWLjxWD5o',
    1986: 'W35HVudlVk89VaZxVSIWVM8sVIHNVHEjVItEVNKAVU61VcwLVn2CVxqRW6V-WGG_WOZIWUdiWYHoWZ3qWXCgWSaWWLoQWD1t',
    1987: 'W3AcVuaCVkDFVaVRVSLyVM21VIHsVH4dVIq4VN7FVT_nVcj2VmwjVxgFW6PJWGC9WOUsWUeNWYFbWZ7jWXAjWSeLWLkyWD4D',
    1988: 'W35vVubpVk8gVaXgVSIaVM5wVIFrVHAQVIofVNE9VTzoVcplVmtvVxlOW6LpWGEIWOQYWUd5WYAjWZ41WX5XWSZAWLfAWC-7',
    1989: 'W2_aVuVsVk2-VaTWVSFPVM4pVIGhVHCMVIthVNHNVU5NVcrDVm_8VxjHW6R4WG9SWOTnWUX6WYCbWY-RWX7fWSVGWLinWCxz',
    1990: 'W34bVuUVVk8QVaRjVSJsVM1RVIInVH6zVIscVNAaVU0nVcj_VmsiVxc2W6F8WG2oWOGVWUSFWY0WWYyKWW-JWSWOWLcjWD08',
    1991: 'W311VuaDVk5OVaW_VSFhVM5MVID4VH9oVIm7VND5VTxEVcn1Vmq6VxfZW6FxWG5ZWOJZWUTHWY47WYwxWX0dWSSFWLcnWCvf',
    1992: 'W2_3VuSNVk2EVaOgVSCJVLz1VIAbVH1-VIlsVN6XVT-9VcibVmwIVxe8W6OJWG6rWORWWUVMWY9eWYyRWX3cWSSeWLe2WCv6',
    1993: 'W2_qVuRgVk3iVaOmVSF1VL-ZVIEAVH52VIp0VNAYVT-wVcmSVmtJVxg-W6HzWG8YWOJUWUV_WY1AWYyEWWxPWSSPWLWlWCvw',
    1994: 'W2w1VuUKVj_nVaTTVSCtVM4YVICsVHAXVInLVNDwVTz1VcnHVmsPVxfdW6JHWG6JWONtWUUfWY8cWYyVWX4tWSTcWLgSWCwB',
    1995: 'W31fVuRhVk3oVaN2VSDBVLwpVIAgVG-rVIkGVN1wVTwAVccqVmqbVxYxW6JBWG4_WOQ2WUZ2WYDJWZ5GWXBBWSe7WLmhWD47',
    1996: 'W36eVuZlVk6sVaSwVSEJVL_JVIAXVH3gVIjwVN8hVTwJVclnVmr9VxiXW6JSWGCoWOPJWUdpWYBmWZ7qWX9iWSgBWLl-WD6x',
    1997: 'W36xVudlVk81VaXtVSGBVM4gVIDBVH8pVInqVND1VT_yVcoYVmy7Vxj6W6QvWGBcWOWRWUbbWYIFWZ5fWXGXWSfYWLunWD8u',
    1998: 'W3IZVuiLVkLuVadfVSTwVM8mVINbVH8kVIseVN8JVT-pVch7VmsNVxbtW6IdWG6hWONzWUa0WYBLWZ7NWXBvWSkDWLsoWDGL',
    1999: 'W3J9VurxVkOFVaoLVSWvVMJiVIPzVHIxVIt7VNGpVTz8VcngVmqIVxhIW6IbWGBrWOR8WUe-WYGZWZAzWXGTWSktWLuYWDDd',
    2000: 'W3HqVun2VkLNVajGVSUkVMG8VIQZVHHdVIxYVNHBVU4rVcoJVmzWVxhTW6RoWGByWOZGWUfNWYNOWZB-WXMYWSmDWLzwWDEO',
    2001: 'W3MOVumsVkPaVaixVSZcVMH7VIWsVHL1VJ2iVNMiVUAVVcuAVm-gVxlDW6MvWGCWWOPmWUdkWYCGWZA9WXCaWSmGWLsmWDHG',
    2002: 'W3HzVur-VkMjVap1VSX2VMN1VITiVHPsVI-mVNQAVU6tVcwRVmyjVxluW6MmWGApWOQlWUa3WYEGWZ5yWXFpWSihWLw-WDE4',
    2003: 'W3LqVunjVkOPVah-VSVJVMCJVIOvVHCBVIulVNBaVU1mVcjUVmwAVxdAW6NFWG7HWOT1WUaTWYGmWZ8GWXHYWSl7WLxnWDG5',
    2004: 'W3MRVupfVkPMVajzVSWFVMEAVIO-VHE8VItfVNEaVT_uVcoRVmtyVxjbW6KgWGDOWOPaWUe8WYBNWZ8FWX9gWShwWLn-WDBQ',
    2005: 'W3CAVulbVkGOVai7VSPtVMEuVILGVHGBVIrsVNG5VT_NVcnpVmuPVxgKW6MKWG8iWOSoWUZRWYFgWZ3nWXE8WSdMWLsEWD6j',
    2006: 'W3GRVuh5VkL1VaduVSUQVM9yVIOQVH97VIrtVN5pVTx1Vca_VmlyVxTJW6BIWF-4WOHtWUTQWY7dWZ38WX9nWSgmWLqMWDBk',
    2007: 'W3ExVulFVkH_VafwVSPMVMATVIHxVH9TVIkdVN6kVTpBVccFVmeGVxUkW65OWF_fWOEiWUU_WY6nWZ4OWX9xWSh8WLpnWDAK',
    2008: 'W3C3VuhQVkCJVaZmVSHjVM30VIAXVH2OVIgCVN1MVTpMVcYOVmiAVxRHW6AuWFy3WOJtWUR9WYA-WZ0_WXE8WSf3WLv5WD9p',
    2009: 'W3IoVuhvVkJsVaaLVSP0VM2zVIGiVH1aVIkRVN04VTqmVcX2VmfiVxPJW63XWFuWWO8CWUMCWXzEWYx_WX13WScBWLlDWDAv',
    2010: 'W3DQVunQVkIXVaj3VSPjVMCQVIGXVH92VIhGVN4EVTl6VcYWVmaDVxPSW60TWFtmWO7sWUKbWX-qWYvoWX3jWSZpWLoFWD8S',
    2011: 'W3G9VukhVkKUVafcVSQbVM7aVIGIVH2CVIgCVMxFVTjiVcOMVmZaVxGtW62BWFpbWOCTWULKWY5CWYzPWX9nWSdFWLsSWDAB',
    2012: 'W3InVulAVkMrVagFVSTtVM9kVIKvVH6mVIljVN2TVToxVcXYVmcuVxQCW62SWFxPWOA3WUQzWY14WZ0_WX4cWSfMWLmPWDBH',
    2013: 'W3C1Vum3VkGOVaiNVSPPVMETVIJjVHELVIo0VNBZVTtqVcffVmisVxU-W68PWFyOWOFmWUPZWY73WY_9WXBdWSeaWLv2WDC3',
    2014: 'W3L_VunkVkQUVajNVSXzVMDBVIPkVHA4VIrHVN4YVTuYVcXBVmhTVxMwW65EWFs9WOBZWUMAWY3UWY_MWXACWSiLWLwGWDIR',
    2015: 'W3P2VuusVkTWVapPVSZPVMHYVIP2VHDXVIozVN8gVTriVcd9VmfXVxV6W65XWF_hWODxWUUzWY5_WZ5WWXB2WSlLWLuiWDIu',
    2016: 'W3LSVut-VkOvVaoIVSUsVMGiVILYVHDAVInrVN98VTuTVcecVmmZVxXHW6FqWG2LWOPbWUXXWYH5WZ7BWXKUWSlcWM0VWDHy',
    2017: 'W3SRVusgVkWAVanbVSd8VMH5VIUdVHE9VIw7VN9WVTzoVcd-VmnhVxVyW6CRWG0iWOI_WUWOWY9UWZ7CWXDIWSmuWLwPWDKY',
    2018: 'W3NmVuwZVkSyVasqVSb8VMNHVISlVHKMVIt0VNEfVTuyVchRVmiKVxY7W68pWG2MWOIYWUYTWYCjWZAgWXJkWSrdWM1uWDOf',
    2019: 'W3TJVuxvVkUaVaq3VSYSVMGWVINHVHAsVInJVN3-VTqxVcWeVmgdVxOdW69-WFyNWOMtWUWyWYJWWZCgWXRlWSvEWM9_WDSB',
    2020: 'W3ajVu-6VkaWVaqFVScSVMExVIPXVH8vVIoeVN3pVTsDVcZgVmhDVxTSW67qWG0RWOHOWUZAWYBmWZDSWXJMWSvxWM2YWDUI',
    2021: 'W3VDVv2MVkX7VawWVSajVMMTVIOeVHGZVInpVNAMVTrJVceEVmgwVxVXW68XWF_UWOIYWUVWWYDHWZ8lWXL-WSsFWM7OWDT9',
    2022: 'W3ctVv44VkgwVazVVSkLVMNfVIVMVHD6VIpoVN0-VToCVcQ5VmaFVxGHW60qWFojWOBRWUMgWY7VWZ3iWXH_WSqIWM5UWDTX',
    2023: 'W3czVv5xVkiTVb0HVSmgVMR7VIXRVHGvVIqJVN4lVTm8VcTdVmVkVxJwW5xqWFtNWO7_WURzWY57WZ7nWXEbWSrXWL_JWDRY',
    2024: 'W3TxVv1wVkYAVayJVSdOVMOzVIR2VHHIVInpVN76VTnaVcWAVmZrVxKSW60gWFr4WOCdWUO1WY9kWZ3cWXJOWSnTWM40WDN7',
    2025: 'W3Y3VuytVkbuVatDVShhVMK_VIWwVHEzVIuoVN5YVTtVVcU9Vmc9VxGqW5z8WFl0WO3GWUGMWXzPWYyYWX7XWSi-WLwuWDL-',
    2026: 'W3SAVu-NVkYAVavwVSeTVMNjVISuVHHPVIpUVN85VTnFVcW_VmV_VxJpW5uJWFnDWN_gWUGsWXwhWYxtWX5tWSiEWLvxWDLA',
    2027: 'W3QdVuyWVkUWVaraVSXhVMF_VIJSVH6rVIfqVMyYVTgOVcMMVmThVxBfW5wvWFimWO5zWUFMWY1vWYwyWXBdWSg5WLzmWDHl',
    2028: 'W3TaVuuVVkXTVannVSb3VMCVVIMkVH3gVIiZVMwiVTirVcNWVmVmVxFgW5xFWFntWO3nWUJoWXyvWYzFWX3jWSfqWLpeWDFv',
    2029: 'W3IrVut4VkOEVaoWVSUaVMGIVIJ0VH9nVIg7VN13VTgHVcSNVmTQVxImW5wcWFpXWO5YWUKhWY10WY-1WX9HWSgVWLvTWDGD',
    2030: 'W3O9VusyVkSfVanTVSXdVMDOVIKGVH3-VIfIVMtRVTcyVcE_VmO0Vx42W5q_WFd9WO1oWUDKWY0eWYyUWXCiWSjUWL_UWDKx',
    2031: 'W3URVuwUVkX8VaoTVSZfVMCPVIKKVH2gVIeCVMtYVTb5VcHGVmLEVx8LW5n_WFjYWO02WULLWY0IWZ4rWXCnWSr7WL-lWDR0',
    2032: 'W3RmVu-PVkS1VaqDVSSfVMCnVIC-VH33VIYiVMvIVTZUVcKYVmNuVxBOW5t8WFkUWO5tWUKLWY6fWZ3aWXKIWSqxWM7wWDSY',
    2033: 'W3ceVv1QVkdxVatpVSeeVMFvVIOGVH4iVIiFVMuUVTgDVcHQVmRFVx6yW5sSWFf5WO0wWUEPWX_8WY-eWXDKWSp4WM4MWDVB',
    2034: 'W3dqVv8ZVkjIVb1vVSlmVMQRVITsVHDQVIjxVM-fVTdYVcLbVmLtVxAdW5nXWFjNWN-EWUIxWX-IWZ2kWXDNWSsdWM4MWDY5',
    2035: 'W3d4VvApVkhaVb3RVSj6VMQtVIQVVHCKVIgdVMxrVTbRVcHFVmM2Vx5hW5qtWFg1WO5NWUIgWY8EWZ4QWXNdWStyWMDEWDY0',
    2036: 'W3kgVv9uVkp4Vb31VSrtVMSBVIb8VHFjVIsZVN18VTnIVcO9VmVhVxCoW5vkWFlTWO4sWUM9WY44WZ6mWXHtWSvrWM6xWDZe',
    2037: 'W3eIVvBXVkjMVb5lVSnzVMXPVIZsVHO9VItXVNBkVTo-VcYXVmX0VxL2W5woWFqSWO5eWUNqWY50WZ6qWXJ_WSwRWMA-WDby',
    2038: 'W3k0VvFEVkpHVb8vVSs6VMXuVIbLVHK-VIs_VN57VTnXVcP9VmVJVxAMW5vPWFgcWO4_WUGGWY5MWZ26WXLuWSuZWMEtWDcE',
    2039: 'W3pRVvGFVkuxVb9EVSweVMWkVIdnVHIhVItQVN3PVTmzVcQ9VmUbVxEvW5uvWFo5WO4mWUOgWY41WZ8bWXHmWSxcWM7RWDc9',
    2040: 'W3faVvEXVkkFVb7YVSmbVMWAVIVEVHJZVImsVN5gVTjGVcTgVmUlVxIwW5yXWFr3WOAGWUPtWYA7WZ84WXNHWSvNWMBhWDYa',
    2041: 'W3ipVvAWVknVVb4DVSqzVMU7VIbAVHHzVIt1VN2GVTnJVcN3VmVOVx9-W5voWFhYWO4oWUH7WY3RWZ1CWXH7WSqiWM6_WDVj',
    2042: 'W3fjVv8sVklaVb3CVSpUVMTLVIZ1VHHHVIpKVN1rVThLVcMlVmN8Vx9-W5nDWFioWN-HWUK3WX_sWZ5jWXF_WSw5WM6LWDa4',
    2043: 'W3csVvABVkeoVb0WVSedVMMzVILdVH8gVIc6VMuuVTX8VcESVmHIVx2IW5lgWFcOWO0_WUGEWY65WZ4AWXN-WSvXWMEiWDZT',
    2044: 'W3kkVv8gVklPVazTVSjeVMIJVIPLVH35VIfNVMprVTarVcBiVmL0Vx1dW5miWFbWWNzKWUDyWX-iWZ1AWXFEWSt3WM6gWDYb',
    2045: 'W3eiVv9qVkhfVb0UVShZVMMhVINlVH8BVIcvVMumVTWTVcFgVmFNVx4oW5hkWFdeWNvKWUE4WXxEWY_qWXCrWSsCWM6SWDa4',
    2046: 'W3hGVvEDVkmEVb67VSlmVMQQVIP7VH79VIaNVMneVTQbVc2zVm7rVwrFW5bGWFPUWNs6WU3sWXxEWYvGWXEyWSo1WM9tWDXD',
    2047: 'W3laVvBzVkrDVb4OVSrNVMPDVIUmVH69VIeuVMmlVTT3Vc2qVm7vVwsbW5ZOWFT1WNprWU9YWXu-WY_LWXBRWSs9WM3XWDY6',
    2048: 'W3cAVvAJVkgJVb2MVShNVMPHVINcVH9kVIbFVMtUVTSSVcAwVm9SVwzfW5bvWFWzWNsVWUAdWXyWWY_bWXGTWSsqWM9ZWDZ2',
    2049: 'W3i1VvAqVklJVb2JVSm3VMPHVITGVHA1VIi3VMsuVTY_Vc7oVmDmVwtJW5cTWFNsWNoqWT__WXs9WYrmWXAZWSm3WM6nWDWH',
    2050: 'W3j4VvBBVkotVb3sVSpqVMQEVIVJVHA5VIh_VMtQVTXMVc9-VmAuVwxLW5Y_WFTHWNlbWU5yWXpSWYxkWX8YWSs9WM57WDcF',
    2051: 'W3g-VvGOVklKVb7CVSjrVMQmVIMjVH7wVIYLVMq1VTPhVc7GVm7zVwwDW5beWFTqWNsqWU7jWXyvWYzAWXHUWSrtWMCQWDaT',
    2052: 'W3nEVvE8VkraVb5PVSqnVMPaVIUMVH6tVIgKVMo_VTXxVc7FVmGDVwxtW5iKWFWKWNwAWU9gWXyUWYzkWXD_WSqvWM78WDYh',
    2053: 'W3hwVvD0Vko4Vb6eVSqKVMUFVIWjVHElVIjgVMyOVTZeVcG5VmFQVx3lW5g_WFdpWNwAWUGuWX-EWZ4lWXH6WSxyWMAwWDfp',
    2054: 'W3leVvJyVkqtVbCNVSr9VMXVVIV8VHEaVIfzVMuBVTUdVc7jVmA4VwuOW5cxWFSlWNveWU9ZWY2NWZ2IWXPNWSzEWMLYWDiQ',
    2055: 'W3wBVvLNVkzZVbBYVSxjVMUqVIaDVHBCVIkNVMrbVTYpVc7OVmDmVwwuW5fPWFXjWNwvWUGKWY2sWZ9rWXP7WT4SWMKAWDoK',
    2056: 'W3tHVvPSVkv0VbDzVSrzVMWeVIUGVHD_VIfVVMwdVTVzVcEaVmDNVx2jW5gmWFdbWNyXWUJ7WY4iWZB3WXSBWT6AWMP8WDrm',
    2057: 'W3-5VvUjVl0zVbK8VS-7VMcMVIbtVHHdVIlkVMwWVTaDVcA5VmFLVwwaW5gUWFTNWNvvWU7vWY01WZ05WXNOWSzRWMM-WDn2',
    2058: 'W40OVvUTVl7cVbNAVT6-VMgDVIjgVHK3VIq1VMx4VTaHVc9nVmBoVwwuW5bAWFVmWNrAWUCkWXydWZ5_WXKEWT2fWMIbWDqV',
    2059: 'W3w9VvWDVk_tVbNpVS-OVMgIVIamVHJnVIhGVMwKVTSXVc8dVm6bVwvWW5ZbWFUYWNtgWUCXWY2aWZ6bWXROWT2SWMObWDoO',
    2060: 'W3-7VvSNVl2WVbJYVT1RVMd5VIfuVHIPVIp3VMwPVTc3Vc96VmFaVwvDW5fJWFSMWNuFWU86WX-kWZ14WXLcWSzEWMIuWDju',
    2061: 'W3v9VvOSVk-WVbGXVS-nVMb-VIexVHKAVIpQVM_0VTc4VcF1VmDYVw-uW5bOWFWzWNpNWUB4WXvVWZ2oWXGzWS_KWMFuWDnh',
    2062: 'W3tuVvTdVkzNVbKpVSxLVMcuVIXtVHGgVIfSVMthVTRWVc53Vm4YVwpFW5UvWFL5WNm1WU0tWXvIWYw_WXJCWSvbWMJoWDjI',
    2063: 'W3ydVvPdVl25VbGSVS_NVMXUVIaeVH9rVIgxVMmIVTSXVb_UVm6BVwndW5X8WFNLWNnfWU4yWXutWY-MWXFeWSwMWMClWDgz',
    2064: 'W3oxVvLDVktRVbBgVSrHVMTyVIRuVH8dVIZYVMnfVTMJVc31Vm1VVwshW5UbWFSTWNmqWU8mWXuyWZ0XWXFqWSx5WMCPWDgl',
    2065: 'W3nwVvKlVksFVbBkVSqpVMUtVISeVH9NVIakVMluVTMVVbylVl_gVwhsW5R6WFFYWNi-WTyPWXrwWYsOWXEYWSpmWMDOWDbv',
    2066: 'W3qyVvHSVkwRVb8rVSuvVMRJVIVKVH4kVIbIVMgkVTKcVbt-Vlx7VweNW5KeWFEUWNcnWT-sWXnqWYy9WXCdWSx9WMBlWDiK',
    2067: 'W3nBVvKkVkozVb86VSjXVMNEVIHIVG_CVIMqVMbpVT88VbqtVloXVwczW5GUWFDwWNclWT_3WXrTWYzPWXIrWSzRWMJUWDlU',
    2068: 'W3vSVvO7VkwnVbAtVSqMVMOnVINVVG_XVITQVMbTVTFxVbqNVlw-Vwb-W5NKWFBNWNfVWTw9WXpwWYtBWXFTWSt_WMHFWDiU',
    2069: 'W3wCVvODVk-tVbDjVSwnVMTLVIUKVH4hVIYeVMgUVTI2Vbv4VlvoVwg-W5KQWFH5WNcHWT_pWXmVWYy1WXC7WSyzWMFFWDpP',
    2070: 'W3woVvY1Vl1oVbP9VS-0VMdlVIVLVHBHVIVqVMhjVTByVbrFVlooVwZpW5FLWF9RWNbTWTwZWXqQWYvmWXJ6WSyKWMNGWDp4',
    2071: 'W42lVvXgVl9vVbPQVT75VMf3VIffVHDCVIgjVMjHVTMBVbsMVlxhVwbeW5MeWFC-WNh2WT_cWXuIWY_FWXL0WT0SWMMKWDqH',
    2072: 'W3-oVvW3Vl4FVbM-VT25VMehVIdRVHHGVIh_VMsPVTPsVc2mVl_dVwoPW5PaWFNhWNinWU7VWXvYWZ5OWXMqWT6QWMP6WDwm',
    2073: 'W41-VvclVl77VbTXVT4nVMlFVIgjVHNfVImBVMxOVTUcVc4aVm3nVwlWW5RlWFGJWNimWTzaWXuJWYxJWXMGWS-SWMREWDsE',
    2074: 'W47XVvbIVlE_VbTJVTCoVMk8VIn3VHKxVIqdVMuDVTXoVc2yVm6IVwmpW5TOWFKIWNjIWU3OWXu4WZ22WXLLWT4tWMP2WDxA',
    2075: 'W43aVve9Vl8_VbTrVT4XVMiZVIchVHIEVIfHVMs7VTNfVc3BVl_yVwqIW5SRWFQHWNmyWU9tWXzyWZ7AWXQ_WT7pWMTIWDyM',
    2076: 'W46SVveZVlBGVbUKVT71VMjIVIf_VHInVIjoVMs3VTTjVc2MVm74VwoaW5ZPWFNsWNsJWU6QWY0SWZ2AWXQgWT1NWMRCWDr7',
    2077: 'W449VvXhVlAHVbP9VT8JVMgfVIjFVHIQVInGVMsxVTV3Vc3XVm57VwqBW5V6WFQrWNnyWUBUWXzVWZ8tWXP0WT8uWMQ9WDyp',
    2078: 'W42vVvelVl7iVbUIVT37VMipVIaqVHH7VIbmVMo3VTHaVbxVVltlVwg1W5KAWFGRWNhiWU3jWXzQWZ5YWXUPWT9DWMYOWD-G',
    2079: 'W4AnVveiVlD6VbRZVT5pVMdVVIbqVHA8VIccVMgVVTJCVbqOVlwBVwaZW5MqWFD6WNjIWU1kWXzIWZ4JWXTBWT8GWMWWWDyt',
    2080: 'W48EVvcDVl9eVbNpVT1NVMZCVIWsVH6vVIXxVMg6VTFGVbtIVlsTVwfPW5IgWFHoWNeUWU4wWXuAWZ6KWXOnWTAtWMU7WE1e',
    2081: 'W48HVvjQVlBXVbWSVT3oVMhSVIY7VHCKVIWUVMgdVTA_VboGVlmPVwVCW5BhWF3uWNXIWTrNWXnFWYsqWXIwWSz9WMQxWDtU',
    2082: 'W49AVvddVlGVVbU7VTBAVMgDVIfIVH9eVIbGVMbDVTCJVbg_VlkgVwOUW582WE_iWNTBWTqdWXjtWYuuWXFwWS_jWMMjWDuR',
    2083: 'W42zVvcVVl8oVbRiVT2qVMdiVIWzVH88VIT6VMb7VT48VbhzVld0VwQLW52OWF2HWNQQWTtbWXjoWYxuWXHKWT2EWMO1WDvq',
    2084: 'W42wVvcbVl7OVbRDVT1MVMdmVIXBVH9TVIWMVMdYVTAYVbjrVlkSVwPIW585WEzOWNSjWTlGWXibWYnaWXENWSt_WMLXWDn2',
    2085: 'W427VvVcVl8aVbM3VT4WVMagVIc8VH8dVIcLVMepVTF-VbmlVlnkVwT8W58CWF1RWNQ6WTpLWXeWWYrnWXA8WSy-WMIVWDtk',
    2086: 'W40wVvdgVl7tVbTNVT1mVMe_VIVcVH98VIS0VMc6VT3lVbiMVlcVVwORW50BWEy-WNM6WTloWXeUWYpmWXDAWSyMWMN6WDtn',
    2087: 'W45nVvdpVlCRVbTOVT61VMeOVIZcVH7OVIWEVMZKVT8_VbfeVljfVwNeW59PWE-zWNVWWTomWXlMWYrMWXGHWSxBWMMfWDpl',
    2088: 'W432VvY7Vl9IVbNxVT46VMavVIZaVH6xVIXoVMcNVTBFVblyVllWVwWHW5AXWF8rWNWXWTyxWXmWWY-nWXG-WT3MWMMTWDwt',
    2089: 'W423VvesVl8CVbVBVT3rVMjDVIaKVHFFVIYJVMiKVTANVbnbVljBVwSvW57TWF1cWNUCWTqlWXmQWYu5WXJhWS-_WMRbWDuW',
    2090: 'W48jVvdfVlFOVbU8VTAhVMhQVIgVVHCTVIe0VMehVTFOVbjYVln7VwPpW5AKWF0_WNWgWTtdWXpsWY-fWXOaWT7ZWMWRWE07',
    2091: 'W4BKVvhsVlEAVbTxVT5MVMdkVIYGVH7xVIV4VMcRVT7lVblBVlhmVwU_W57oWF8RWNX0WT_vWXsSWZ70WXSkWTGDWMboWE9Q',
    2092: 'W4H9VvrIVlJSVbcbVT9LVMkoVIb1VHDEVIXvVMgbVTCUVboTVlobVwWDW5EmWF6MWNbxWTwIWXuVWY_1WXTBWT8AWMd9WE3b',
    2093: 'W4LUVvoyVlRPVbdYVTK1VMndVImSVHFzVIhgVMhoVTItVboZVlrjVwX5W5FcWF96WNbLWT-kWXsyWZ4GWXR6WTDxWMbaWEAc',
    2094: 'W4LZVvxaVlSrVbmeVTL2VMvNVIkqVHKgVIbgVMiPVT8MVblOVlf2VwS3W54aWF4aWNUrWTyUWXruWZ4nWXU2WTF-WMfpWECX',
    2095: 'W4P6VvynVlVdVbnpVTO8VMx4VIp9VHMfVIhZVMjkVTFNVbl5VlmJVwQPW5BtWF2xWNbiWTxCWXxKWZ3HWXXcWTDKWMh5WE7c',
    2096: 'W4NwVvrQVlSpVbfQVTLUVMpzVIoOVHI_VIjQVMkhVTJ1Vbq0VlpHVwWqW5BgWF8aWNYMWT_iWXsTWZ7BWXShWTHYWMd2WECl',
    2097: 'W4KlVvxEVlPxVblOVTIaVMvyVIlKVHOOVIfZVMoDVTE4VbqXVljUVwT5W54tWE_uWNQhWTpcWXlJWYwmWXNlWT7RWMbdWE6L',
    2098: 'W4N1VvuDVlUaVbjlVTNFVMt4VIoNVHJ0VIh6VMgfVTErVbh_VlkFVwLnW55-WEx5WNRMWTmsWXkvWYv9WXMBWT5cWMYRWE2x',
    2099: 'W4H-VvofVlNeVbb_VTEKVMjZVIdaVH94VIVJVMYcVT3XVbduVlamVwMKW4_cWE_hWNOHWTt8WXj9WY-IWXJcWT8bWMUSWE4R',
    2100: 'W4D3VvpqVlInVbdvVTARVMmXVIayVHCTVITvVMbXVT3jVbfOVlcSVwK_W51jWEx6WNPyWTm0WXjjWYrBWXIhWS-0WMSQWDvH',
    2101: 'W4A-VvfLVlHzVbVKVTBzVMgTVIetVH8CVIYfVMXEVT6sVbaGVlcyVwGGW4_wWEuCWNN0WTl_WXhGWYuCWXHPWT32WMRxWD-t',
    2102: 'W4ALVvjvVlFhVbXGVT6gVMfGVIW5VH4TVIMfVMRsVSuFVbTpVlNFVw9iW4nuWEovWNDCWTjNWXd9WYvMWXIpWT7cWMWbWE4q',
    2103: 'W4F6VvovVlIPVba3VT6rVMfVVIUaVH2hVILOVMP3VSv4VbQbVlQZVw6DW4t1WElVWNIlWTfjWXhdWYrBWXM0WT35WMZ8WE05',
    2104: 'W4HSVvjxVlKgVbUpVT8-VMaEVIWhVG-FVINoVMMvVSy5VbRuVlTQVwAHW4txWEqSWNH4WTkXWXe8WYvjWXI2WT8CWMWMWE76',
    2105: 'W4H4VvtXVlMsVbgeVTCoVMmyVIZ_VH9KVINxVMTtVStwVbTrVlMJVw7qW4m1WEkTWN9nWTcPWXYKWYnEWXEGWT1AWMVKWE34',
    2106: 'W4JVVvtGVlScVbjPVTKeVMqhVIiNVHByVIVkVMTnVS-FVbQZVlR8Vw37W4qRWEhEWNEjWTc5WXdxWYpLWXJfWT3FWMYjWE2l',
    2107: 'W4J_VvpvVlQmVbe1VTHlVMl9VIfjVH8FVIU6VMTSVSzaVbT-VlQdVw9aW4pwWEpvWNF2WTm6WXfJWYzbWXLXWTD7WMaKWEBi',
    2108: 'W4KRVvxZVlPxVbkxVTGgVMsUVIfrVHGxVIWaVMdYVT2yVbe1VlXrVwGWW4wcWErSWNJQWTiZWXhQWYt3WXMgWT62WMc8WE5q',
    2109: 'W4NpVvtTVlUtVbiRVTN2VMrMVInjVHGsVIfeVMdoVTC8VbeMVlgFVwHgW51JWEtbWNNcWTlQWXjWWYwkWXO7WTA_WMeRWECO',
    2110: 'W4RZVv-qVlYiVboNVTONVMtuVIkfVHFmVIY7VMaiVT1gVbbQVlVIVwGfW4uiWEvNWNIzWTpcWXihWZ0WWXPwWTHZWMhGWEIw',
    2111: 'W4U3Vw4wVlaWVbt_VTPSVMyUVIkvVHIcVIY8VMbqVT37VbbiVlZoVwH3W50eWEwWWNSxWTqaWXrtWY_SWXW5WTDHWMjwWEBd',
    2112: 'W4UGVvy1VlaAVblTVTQQVMrwVIo6VHEYVId6VMa7VT8fVbcNVleeVwK0W53iWE_HWNUTWTx9WXsuWZ7MWXWsWTLQWMk8WEJC',
    2113: 'W4TrVw2yVlZRVbsFVTPsVMz6VInLVHLPVIaLVMedVT23VbciVlUMVwG4W4tuWEuEWNJWWTp2WXktWZ0gWXSrWTHbWMjgWEI1',
    2114: 'W4VOVw38VlbAVbs6VTQTVMxIVImnVHHjVIZlVMZHVT23VbVSVlUcVw7QW4uUWEmJWNL6WTjhWXnyWY-RWXXNWTHKWMoZWEHW',
    2115: 'W4Z0Vw0IVlc5VbltVTO4VMo2VIhfVH7RVITYVMQ_VSyaVbRaVlQDVw7uW4qIWEpeWNH1WTocWXkGWZ3-WXUHWTNWWMmVWEOh',
    2116: 'W4XvVw8EVlbMVbtpVTMtVMvBVIfMVHDIVIQGVMVfVSvSVbV4VlOEVw96W4omWEmVWNE8WTgQWXfPWYuPWXOaWTBLWMi0WEEi',
    2117: 'W4WbVw2CVle4VbrvVTT6VMvyVInYVHECVIY9VMU2VS_1VbQBVlRMVw34W4qXWEhmWNEtWTdRWXewWYsVWXNDWTACWMgtWEEi',
    2118: 'W4WlVw3LVlfGVbtAVTTnVMvyVIllVHByVISNVMPWVSqhVbK1VlDOVvysW4c8WEdqWN3qWTdEWXYgWYvaWXKTWTEgWMexWEIW',
    2119: 'W4TeVw5vVlb3VbvOVTPmVMynVIi-VHFaVIRQVMTHVSrsVbMrVlGXVvzaW4gYWEcCWN8dWTZiWXczWYqTWXNWWT7tWMg8WE9i',
    2120: 'W4SmVvxGVlYrVbkFVTO3VMpEVIjvVH9IVIVuVMQjVSy-VbNRVlNtVv_jW4k_WEe2WN8wWTa-WXaSWYs1WXKGWTAXWMdfWEDg',
    2121: 'W4RRVv__VlY6Vbp0VTNEVMtqVIiDVHDSVISLVMTwVSsmVbOuVlF9Vv-rW4amWEaJWMz-WTUaWXPyWYksWXBvWT56WMYiWEBZ',
    2122: 'W4PyVw17VlYnVbrWVTNtVMv8VIhYVHCOVIR5VMQlVSsWVbKKVlGuVvvxW4etWEWUWN3yWTS8WXWJWYisWXH8WT20WMbpWE6O',
    2123: 'W4QrVvvjVlXsVbiJVTLXVMkiVIe2VH1jVIN5VMHxVSpOVbG1VlFeVvxNW4fLWEcyWN5gWTbdWXY5WYsTWXHQWT9xWMa4WECO',
    2124: 'W4NZVv-dVlU8VbnMVTITVMqwVIc4VH9BVILsVMPvVSoUVbNKVlF9Vw0hW4fMWEf3WN5oWTaNWXY7WYouWXHFWT5AWMZiWE7P',
    2125: 'W4NLVvwRVlUuVbkqVTL5VMqLVIh3VH9pVISYVMPkVSv7VbKmVlKmVvyiW4kPWEc7WNB0WTa4WXe1WYrYWXOIWTA6WMhkWEDB',
    2126: 'W4VGVv-uVlaeVbltVTMxVMnFVIeTVH3aVIMDVMIWVSmBVbEZVlA7VvudW4ZoWEbOWN3IWTdnWXb5WYzjWXPzWTLaWMm3WEPp',
    2127: 'W4ZhVwAgVldRVbvgVTNSVMuiVIc_VH93VIK1VMM_VSlRVbIxVlCbVvyhW4fLWEd_WNACWTeIWXh_WYyZWXWQWTJWWMsCWENV',
    2128: 'W4fmVw8UVljZVbtgVTTgVMsmVIjVVH7AVIR5VMLMVSt5VbICVlKNVvzTW4luWEfqWNE6WTgPWXjFWY-uWXWWWTMrWMt9WESr',
    2129: 'W4j7VwGNVlphVc1nVTbaVN1pVIqaVHGpVIU9VMRcVSq7VbKGVlBpVvy9W4abWEcsWN35WTd2WXa2WYy4WXPnWTLmWMpTWEUo',
    2130: 'W4ivVwLyVlsfVcACVTgNVNB2VIvhVHOlVIYdVMWQVStcVbKtVlEWVvuzW4dRWEYLWN7hWTZwWXgwWYwjWXXIWTJzWMv3WEQI',
    2131: 'W4lGVwEBVlsEVc0IVTeqVN0xVIuoVHGDVIZNVMQmVSv-VbItVlHYVvwRW4fZWEc9WN8FWTfDWXgTWZ0xWXWXWTQiWMuBWEWo',
    2132: 'W4joVwJmVlq1Vc5HVTcaVN6fVItcVHO8VIZxVMb4VSxlVbTlVlJ5Vw2yW4fWWEfcWN5OWTcgWXb3WYwNWXQRWTJQWMpRWERI',
    2133: 'W4hLVwGsVlpdVc4OVTdcVN6mVIvvVHOMVIdYVMaRVT0PVbRSVlOGVv_DW4khWEbUWN9qWTYdWXe2WYsSWXSSWTGAWMruWEPI',
    2134: 'W4k-VwFUVltIVc1hVTf2VN0uVItDVHEwVIWaVMPPVSslVbHzVlDsVvvRW4b0WEaBWN2RWTbSWXZLWYxlWXPGWTM0WMoeWEUQ',
    2135: 'W4gsVwJqVlohVc5rVTaMVN4xVIoEVHIMVIR2VMRvVSnfVbKAVlBTVvx_W4cWWEcJWN6PWTbkWXdSWYvAWXRNWTFvWMneWEL4',
    2136: 'W4dAVw8gVlj-VbwzVTWrVMy4VIncVHC2VITcVMNFVSsEVbG2VlGUVvuPW4gtWEZzWN9cWTb2WXffWYvwWXSzWTHKWMoiWEME',
    2137: 'W4djVw9BVlkDVbx7VTX2VMyJVInBVHC2VIQyVMMAVSlPVbCpVl4YVvomW4RbWETOWMwPWTVPWXTAWYslWXKUWTHTWMj-WEPF',
    2138: 'W4bCVwDUVlhoVb-gVTSzVMzhVIhCVHBEVIKNVMJlVSfuVb8uVl0uVvizW4PqWEMbWMxDWTPjWXX4WYp7WXQTWTEpWMq4WELm',
    2139: 'W4fYVw7WVlj5VbrNVTQzVMnPVIc_VGzaVIFuVM7FVSd9Vb0GVl0fVvfLW4QfWEMXWMx9WTRWWXVoWYs8WXO_WTJGWMpeWERj',
    2140: 'W4gVVwEWVlkzVbydVTSkVMuHVIdfVH3yVIEvVMDMVSaRVb5sVkydVvjnW4LxWEONWMr4WTP3WXNmWYl_WXGAWTCFWMiEWEMy',
    2141: 'W4cQVwDvVlkzVc0FVTWCVM-PVIixVH9jVIK5VMFyVSeJVb3_Vk_IVveZW4OkWEIiWMv8WTKkWXSZWYijWXKpWT9SWMmvWEKm',
    2142: 'W4hnVwCGVlqqVb-TVTbXVMxQVImHVH4fVIKAVM8wVSalVayXVkuoVvYdW4GtWEGLWMoqWTNeWXP_WYqPWXLLWTJDWMnrWETb',
    2143: 'W4h1VwJ8VloVVc4JVTYuVN1iVIkPVHCFVIJOVMHeVSa_Vb5WVkwQVvgmW4JyWEL-WMsGWTPqWXT2WYpsWXNnWTGsWMpHWEPn',
    2144: 'W4h0VwE5VlnGVb-vVTXzVMzWVIm5VHAjVIPLVMIrVSkuVb7-Vl5wVvirW4UMWEN2WMz_WTQBWXYFWYqKWXS4WTIaWMuYWETM',
    2145: 'W4o4VwJ5VlvWVc4EVTg0VN21VIsBVHDWVIS2VMJ_VSjWVb7_Vl0HVvhyW4LEWELWWMpGWTORWXNiWYp9WXJDWTJHWMoXWEX1',
    2146: 'W4lCVwPfVlunVcC1VTfMVN8sVIq3VHICVIOWVMMbVSgBVb9JVk_EVviZW4NWWELpWMujWTOpWXVBWYpBWXQaWTHbWMtwWESs',
    2147: 'W4o8VwJLVlvvVc4XVTfkVN0zVIqdVHAUVIQ0VMFlVSjJVb4uVl4aVviHW4UgWEPkWN09WTVHWXbQWYwFWXU-WTNvWMwUWEXn',
    2148: 'W4pJVwN3VlwaVc80VTgtVN5UVIsbVHGmVISFVMNdVSkMVbCpVl39VvopW4RGWEUDWMxfWTXMWXWJWYwIWXPlWTN5WMrbWEXE',
    2149: 'W4l9VwNjVltgVcASVTflVN9hVItRVHLmVIUdVMRWVSnUVbDrVl6TVvmTW4UoWEQDWN0WWTUFWXdDWYvJWXYaWTO5WM_nWEZ9',
    2150: 'W4vIVwOSVl_aVc7sVTjmVN2qVItDVHBDVIQ_VMFGVShsVb2bVk_zVveCW4NxWELuWMwbWTUsWXaGWY_3WXZ8WTXQWN2OWEjY',
    2151: 'W4xyVwXvVm0uVcFPVTi-VN8NVIqMVHFfVIMoVMJoVSdfVb86VkzRVvkiW4NnWERNWMx2WTWuWXZmWYzgWXXmWTUJWN0tWEgQ',
    2152: 'W4wvVwVnVm0fVcEQVTjeVN88VIs6VHFbVIQ7VMJPVSikVb6mVl3cVvi8W4U3WEOHWN0UWTTUWXdCWYvfWXZXWTQTWN2vWEe9',
    2153: 'W4_7VwW2Vm7oVcHCVTspVNBvVI-VVHHjVIUNVMI5VSgrVb28VkxPVvbXW4HJWEHiWMoXWTOkWXQZWYt1WXOoWTPdWMw3WEfD',
    2154: 'W4uPVwZJVm3CVcMLVTpiVNI3VIx_VHNsVIRTVMMnVSczVb4JVktKVva-W4EMWEF8WMn_WTL_WXTFWYr9WXT8WTN4WMz0WEZp',
    2155: 'W4tsVwQGVl_AVcAkVTk1VN5yVItIVHD9VIPoVMEVVSepVa-YVkxkVvXhW4JaWEDlWMr_WTLSWXVFWYrBWXUCWTN-WM-3WEa-',
    2156: 'W4ueVwQgVl_7Vc9_VTjGVN54VIsZVHDxVIPsVMIDVSf4Vb4DVkw6VvcoW4EiWEGBWMjiWTK2WXK7WYmfWXI0WTIsWMpBWEXv',
    2157: 'W4maVwQiVlvsVcCXVTfhVN8aVIpbVHGwVIN3VMJiVSd7Vb3yVkvvVvaXW4GAWECGWMmZWTFQWXNoWYhoWXL-WTE8WMtcWETn',
    2158: 'W4rUVwMfVl-5Vc6yVThYVM_kVInlVH42VIHYVM45VSVbVar0VkolVvPlW4AkWE70WMj4WTFNWXMFWYlPWXLRWTIwWMsaWEXj',
    2159: 'W4pHVwPNVlxHVc9DVTehVN2EVIkkVH75VIDpVM7iVSR0VavUVkkmVvVrW49GWEE3WMjhWTL7WXN0WYoGWXKkWTIaWMpVWEUg',
    2160: 'W4jzVwKvVlq_Vc50VTZKVM_gVIhzVH6UVIEMVM80VSUKVaupVkpMVvT1W4EIWEAMWMpSWTIEWXTMWYmYWXRDWTHXWMvtWETh',
    2161: 'W4q8VwJbVlx1Vc3SVTfGVMznVImyVH3UVIGpVM3DVSSjVaoCVkijVvLDW43AWE2tWMclWTDXWXIkWYmHWXKlWTLxWMtYWEbb',
    2162: 'W4qTVwS-VlxnVcC5VTeUVN4WVIk5VH8bVICPVM7KVSNjVarVVkeKVvNPW40QWE3iWMcVWTD_WXLlWYnfWXQKWTNvWMznWEcx',
    2163: 'W4vJVwSJVlzpVc8YVTdTVM-9VIhJVH0fVIAJVL_jVSOfValwVkj7VvKiW47sWE3LWMjuWTEPWXRIWYoGWXUtWTPdWN3BWEgS',
    2164: 'W50cVwXdVm6vVcF0VTnKVN4wVIqYVH7JVIHvVM6UVSThVasjVkkiVvQ_W45wWE8MWMevWTH0WXJZWYoBWXLYWTOeWMwfWEhV',
    2165: 'W4xOVwcsVm6DVcOpVTqeVNHmVIvmVHKDVIMMVMGPVSW8VayIVkm2VvSYW47nWE7aWMipWTG3WXPtWYnmWXT6WTOHWN2NWEgt',
    2166: 'W52jVwbkVmCoVcMuVTwEVNEdVI-CVHFKVIPNVM9SVSXVVaqBVkm8VvLXW47XWE3pWMjKWTGtWXSVWYtBWXXuWTWBWN7PWEoD',
    2167: 'W56BVwh2VmEeVcQnVTxVVNIoVI__VHLSVIS4VMIJVSaYVa_5VkooVvX4W49dWEE4WMkDWTNwWXRaWYwoWXVSWTXaWN41WEoX',
    2168: 'W520VwgpVm9pVcQZVTt0VNJbVIzdVHOJVITZVMNKVSgVVb4oVkxeVvaoW4IiWEEhWMsEWTMDWXY9WYtoWXb3WTUXWN9zWEmb',
    2169: 'W59MVwgPVmIZVcR0VU03VNJPVJ55VHLrVIXrVMIEVSh4Va-KVkumVvUTW4CWWE96WMjTWTH-WXOkWYrbWXSnWTUkWN3uWEpI',
    2170: 'W55jVwl3VmGWVcWGVTzqVNNrVJ1IVHP2VIS5VMKWVSa6Vb0TVkoWVvXOW49FWECuWMjgWTLiWXR7WYu3WXV1WTUdWN3oWEly',
    2171: 'W52OVwerVmASVcODVTsQVNF0VIw9VHGEVIMvVMCQVSYIVaviVkqhVvSiW4F4WEAyWMrbWTLgWXYgWYuDWXauWTTvWN7tWEju',
    2172: 'W556VwbcVmCaVcKcVTumVNC4VIz2VHEeVIPsVMCAVSZlVaw1VkolVvSlW497WEATWMiyWTKzWXO_WYtRWXR6WTTFWM-VWEjn',
    2173: 'W4yVVwcPVm4_VcMYVToLVNF6VItXVHI3VIKMVMEZVSTiVawGVkijVvQKW446WE5uWMgCWTGFWXPnWYqYWXVUWTScWN5DWEkD',
    2174: 'W53AVwbWVm8uVcI1VTnsVN5uVIouVH4cVIDBVL-UVSL_VafoVkc0VvC1W3_9WDxaWMd9WTAmWXPHWYq6WXY0WTW5WN9rWEpJ',
    2175: 'W58KVwgAVmD8VcKuVTp-VN6SVIoHVH3gVIAEVLzuVSHhVahBVkXKVvFjW3wfWE00WMY1WTDIWXIJWYpeWXPPWTTuWN10WEnR',
    2176: 'W50gVwg7Vm7PVcN0VTm6VNA7VIllVH7hVI8hVM17VSHNVaifVkYIVvEPW3yXWDyJWMapWT8OWXLSWYj-WXSOWTOBWN4fWEjB',
    2177: 'W56UVweiVmGKVcOeVTxWVNCzVIwwVH8NVIG9VLysVSIlVaZJVkTWVv2PW3p9WDmYWMPTWS_UWXB0WYf1WXKBWTMQWM-VWEjR',
    2178: 'W522VwgGVmDIVcR9VTvRVNGTVIvRVHD3VIEMVM25VSFLVadrVkODVv5lW3jcWDp3WMLWWT1mWX9YWYhSWXKHWTO6WMzvWEiy',
    2179: 'W4-gVwctVm6tVcLdVTndVNAiVIo-VH8-VIBwVM0gVSI8VaePVkVFVv6cW3scWDpEWMUMWT0rWXGqWYflWXQYWTMjWN4IWEiA',
    2180: 'W55RVwc7VmDUVcKPVTtvVN9PVIvOVH8kVIIzVM2UVSPDVai3VkaDVvAcW3t5WDrkWMPdWT13WX88WYeCWXG8WTL4WMwlWEiX',
    2181: 'W4-hVwfdVm9xVcQhVTsaVNHBVIuiVHGhVIHhVM9lVSNOVaobVkZBVvGMW3trWDw0WMS5WT3bWXBxWYfdWXKwWTMGWN0GWEjz',
    2182: 'W54IVwgnVmESVcQHVTukVNDkVItsVH9PVIEYVL_PVSJzVadXVkXtVv7hW3w9WDs0WMXlWT4EWXJXWYjEWXSqWTQWWN75WEn4',
    2183: 'W59iVwiZVmJ7VcRUVTzIVNF9VIyIVHBYVIIMVM2wVSMrVajJVka2VvGGW3yGWE0dWMZnWTErWXKNWYrcWXRBWTVhWN2ZWEpX',
    2184: 'W534VwjmVmC2VcTJVTtiVNJCVIvWVHIEVIIZVMB1VSPNVaqiVke0VvK-W419WE2hWMg5WTG0WXSaWYt9WXanWTXdWNCcWErO',
    2185: 'W5CpVwlEVmLEVcUKVU0GVNJDVJ0wVHG9VINyVM5sVSReVaiGVkcYVvAoW3yTWDv0WMZsWT9GWXNXWYrBWXZBWTafWNEmWExo',
    2186: 'W5H9VwsNVmPLVcZoVU28VNMIVJ0BVHI0VILHVM8BVSNmValqVkXyVvFJW3uBWD-AWMX9WTEpWXMuWYwwWXa2WTgGWNFwWF0k',
    2187: 'W5HEVwvpVmNAVcazVTzNVNL0VIvgVHF1VIFIVM55VSLGVak5VkaXVvEuW3-mWDzwWMfBWTDcWXU9WYuZWXgKWTdmWNMTWE_J',
    2188: 'W5PBVww3VmWqVcceVU86VNNAVJ4HVHGbVIOPVM5LVSRWVaj6Vkd6VvDRW3zGWDy9WMZcWTBAWXLIWYrEWXVcWTaGWNC1WEzS',
    2189: 'W5HSVwxeVmTGVciKVU8RVNW3VJ6RVHQQVIPJVMDSVSP7Vao5VkXvVvFgW3tpWDyzWMWHWTBnWXL0WYsMWXXeWTbgWNEgWE-G',
    2190: 'W5I-VwwwVmSeVcfZVU5dVNR5VJ21VHJDVIKKVM4BVSKVVad3VkUFVv46W3rwWDpFWMWzWT5lWXOPWYqAWXd3WTbhWNKRWEzz',
    2191: 'W5NTVwurVmVUVcbsVU7QVNN3VJ3oVHGSVIMhVM40VSNIVaf-VkWNVv9BW3rmWDuVWMToWT9dWXITWYs2WXV8WTc8WNBfWEzz',
    2192: 'W5EXVwurVmMcVcc6VT_1VNOAVIyjVHJDVIHeVM8PVSKYVakrVkVYVvCGW3rjWDu3WMTfWT5vWXIFWYmZWXVJWTWSWNCqWEvQ',
    2193: 'W5HFVws2VmQkVcaOVU3LVNLWVI_PVHDRVIHbVL-TVSHZVaXNVkQDVuzaW3kwWDgFWMLjWSvxWXA2WYdHWXOTWTQQWN8aWEsU',
    2194: 'W5FoVwrKVmR8VcaTVU3wVNLBVI-hVHCQVIEiVLzPVSCRVaXCVkJaVu_4W3eeWDk0WMHTWS_DWX7EWYhxWXKwWTSYWN2YWErT',
    2195: 'W56lVwnhVmFoVcVPVTtjVNF-VIp3VH7mVI50VLviVS6JVaUiVkI8VuzOW3hTWDicWMNFWSzsWXE9WYg2WXROWTPXWN7gWEn5',
    2196: 'W5AaVwiPVmJ6VcQDVTxjVNBvVIufVH5AVIBvVLthVSCSVaR-VkLNVuvmW3gZWDeLWMIPWSvkWX7BWYd3WXKGWTO5WN1WWEn2',
    2197: 'W55nVwjUVmFdVcSEVTvCVNEoVIsUVH8rVI92VLxfVS80VaVTVkFCVuyCW3a4WDg0WMDVWSxRWX5LWYg6WXM3WTTIWN61WEtX',
    2198: 'W5AQVwolVmHOVcTqVTsPVNBVVIlRVH1AVI06VLnZVS0NVaKzVkAyVuodW3ZiWDYbWMGjWSt9WXBWWYf9WXUbWTUzWNG8WEwd',
    2199: 'W5LMVwsAVmSHVcWUVU07VNCdVItAVH0oVI5qVLn0VS4wVaMVVkF9VutNW3csWDf6WMHFWSz0WX8eWYiuWXOuWTX4WN9TWEyu',
    2200: 'W5FmVwwFVmP4VcdAVT_YVNLkVIuPVHBKVI7XVLxXVS67VaViVkG3Vu-WW3eRWDk1WMK6WS_yWXCTWYkDWXT0WTXVWNDzWEzq',
    2206: 'W5R5Vx6VVmbZVcq0VUBiVNXNVJ2xVHKHVIG0VM1CVSD0VaYGVkM0Vu_5W3kgWDk_WMSBWT3QWXMzWYqfWXfYWTfvWNRBWF6C',
    2210: 'W5YqVx4zVmh7VcllVUEVVNQOVJ2xVHAzVICoVLroVS5TVaKzVk9EVumrW3TgWDY1WMAUWSwYWX8OWYnFWXVZWThBWNKlWF9v',
    2213: 'W5PyVx0-VmdaVcmsVUFTVNUvVJ5tVHG9VIEbVLuxVS3uVaKhVk4BVujcW3MXWDSSWM1oWSoRWW-AWYdLWXK-WTXPWNBiWF2M',
    2220: 'W5TzVx4eVmcvVcmlVUBnVNSvVJ1wVHE7VICrVLtVVS5YVaJdVk9iVujCW3VSWDT9WMCtWSqeWXAOWYg_WXXXWTbXWNNcWF5k',
    2227: 'W5gkVxKaVmqJVc_eVUN0VNehVJ8mVHLrVIE2VLxjVS1eVaLtVk2LVukPW3MeWDTwWM5KWSshWX74WYmeWXa0WTltWNVHWFJz',
    2234: 'W5fwVxDYVmpQVctIVUJJVNSHVJ0ZVH3tVI1QVLamVRoBVZyAVjnvVuKrW36dWD7fWLtYWScAWWyjWYbuWXSqWTfCWNQLWFFA',
    2241: 'W5nQVxVzVm-kVdCsVUWpVNoiVJDNVHOnVIBVVLslVRv2VaAdVjsSVuVWW3ALWDEnWLxYWSgTWX1mWYfJWXaAWTkPWNbUWFOW',
    2248: 'W5tSVxSiVn4FVd8SVUaoVNiVVJFPVHGZVIBDVLiuVRsIVa0OVjnUVuN6W34LWDAFWLrvWSfrWWycWYgtWXUyWTmdWNW9WFR0',
    2255: 'W5nIVxSwVmxqVd6RVUPyVNe9VJ2ZVH9sVHz7VLZlVReHVZrHVjbpVuBKW2yrWC_9WLolWSWTWWz5WYZjWXXwWTguWNZdWFKW',
    2257: 'W5sWVxYmVn1GVdBwVUUmVNieVJ5fVHC-VHzPVLbDVRadVZqeVjTmVu8MW2ncWCwyWLdqWSUAWWt1WYcrWXZFWTqgWNhgWFZX',
    2262: 'W640Vxj0VnGgVdNOVUksVNuIVJLHVHNkVIBIVLkCVRlmVZxnVjbyVuEjW2trWD1vWLj2WSbrWWxXWYkvWXdYWTzAWNmEWFiW',
    2269: 'W5zQVxbJVn8-VdEUVUbUVNjWVJAVVHAlVH_yVLUtVRadVZg7VjRDVtx6W2j4WCjTWLYLWSImWWoCWYVAWXWlWTm_WNhhWFY7',
    2276: 'W64MVxojVnIFVdSvVUkxVNxJVJILVHN9VI4uVLfcVRc6VZpFVjPsVu2LW2fuWCo4WLU4WSKJWWjPWYUPWXSSWTmRWNgIWFbZ',
    2283: 'W6K-VxwbVnW-VdXpVUvQVNwqVJMvVHG5VI44VLTjVRY-VZcoVjO0Vtv_W2hmWCn4WLabWSRCWWtwWYgxWXf6WT_UWNtDWFqQ',
    2290: 'W66KVxszVnLUVdWmVUlaVNwPVJCGVHDgVHsCVLMsVRGkVZQDVj2OVteQW2M5WCTSWLILWS8DWWfuWYPYWXUEWTlQWNjkWFaj',
    2297: 'W6Q3Vy2vVngUVdjYVV54VO74VJWrVHP0VI7vVLVfVRTNVZVsVj8hVthrW2N8WCWyWLHVWSF0WWhxWYclWXcdWU44WNysWF_M',
    2304: 'W6JDVx_kVnVvVdcwVUtTVN-JVJIWVHG0VHxWVLNVVRKXVZOEVj3fVtZ_W2LBWCOPWLH7WS5lWWhrWYT2WXcNWTwGWNyRWFrQ',
    2311: 'W6OlVy5LVnd6VdiGVUzCVO16VJKeVHFjVHvDVLL4VREGVZLRViwLVtXPW29OWCL7WL3VWS1DWWTsWYOFWXPwWTt3WNo_WFrO',
    2318: 'W6iRVyLLVnvAVdvPVVAnVO8SVJRsVHFNVHw9VLDUVRBRVZ9tVitzVtN3W2B6WCGJWLAyWS4FWWhUWYZFWXjBWU8EWOAFWG9e',
    2325: 'W6RbVyEaVnkcVdumVV5sVOCKVJPVVHKbVHsJVLGgVR36VZ8SVif-VtFUW1uTWC35WKsbWRprWWN-WYHoWXRBWTsdWNv2WFuG',
    2332: 'W6jHVyMMVn-kVd-sVVKAVOGSVJboVHM5VH_iVLEdVR8VVZ2_VihDVt8-W1tKWB_HWKs7WRrTWWQWWYPWWXXnWU3uWO43WGA8',
    2339: 'W6h6VyR-VnvkVe1UVVCEVOGaVJSBVHLKVHsmVLEoVR2SVZ4eVifTVtBlW1wXWC2xWKzsWRvfWWb0WYTXWXi_WU6sWOE8WGAs',
    2346: 'W6mIVyRnVo0sVe18VVHiVOD9VJTKVHDPVHo1VL2KVQtCVYqoViO9VswcW1a-WBoOWKcSWRglWWERWYHtWXQAWU03WO0YWG9A',
    2351: 'W6rxVyU8Vo4gVe2BVVKLVODEVJVIVHCcVHpxVL15VQvyVYppViS4VswGW1flWBpNWKiUWRkOWWMLWYOCWXZHWU7kWO9uWGG_',
    2353: 'W6xmVygOVoBwVeETVVPyVOMcVJXDVHHIVHnkVL0cVQqkVYk-ViMLVspCW1bnWBhvWKh2WRe6WWOHWYLYWXgKWUAfWOMiWGPC',
    2360: 'W6qgVycUVo8cVeETVVQmVOQPVJanVHNtVHrrVL8pVQtOVYtlViMOVswwW1YXWBmRWKaBWRd_WWDzWYGgWXSyWU29WO7VWGFY',
    2367: 'W6-_VygoVoHbVeGFVVVqVON6VJaFVHDlVHlPVKtoVQiHVYXgVi8gVsZLW1KzWBSCWKPyWRQkWW8qWYAjWXSRWU1TWOACWGHn',
    2374: 'W71OVyrGVoJ6VePxVVWxVOWlVJbLVHNnVHmLVL21VQj0VYi3ViAZVskFW1P-WBe3WKZZWRd-WWN1WYPLWXjfWUGXWORmWGVH',
    2381: 'W76SVyoiVoQvVeOpVVeuVOURVJgyVHH_VHnQVKtAVQdUVYRGVhygVsO1W14AWBFQWK9VWRHDWVz-WY8KWXPyWU71WOEwWGSW',
    2388: 'W79QVyyOVoRAVeVlVVcDVOYeVJbsVHJnVHh5VKt8VQXkVYPrVhvHVsLhW14JWBCpWKDBWRFCWW4sWY8FWXaOWUAUWOTWWGZ_',
    2395: 'W7IhVz1yVocLVebyVVn9VOdqVJl1VHNwVHoJVKxaVQdTVYWZVh-PVsV_W19TWBPpWKHcWRS1WW77WYIWWXZhWUHeWOQHWGf9',
    2398: 'W7AWVyy5VoSWVeUWVVbtVOUtVJY2VHCnVHYdVKjEVQKmVYFNVhgdVsEJW0ttWBAZWK4zWRHRWW0ZWYCoWXXkWUEaWOPbWGbU',
    2402: 'W7IAVz2oVocmVec6VVkkVOZCVJcZVHB4VHYCVKb5VQGuVY2RVhbJVr_6W0oKWAxBWJ_5WR34WVwKWY0FWXSCWU4zWOMvWGWA',
    2409: 'W7LsVzB7VohjVelrVVrdVOkwVJksVHOUVHgMVKpEVQNNVYGWVhfrVsCfW0s9WB8cWK4kWRHdWW3mWYGnWXfOWUN8WObxWGoS',
    2416: 'W7QwVz9gVoolVemIVV-1VOmDVJteVHOjVHnoVKm3VQRDVY7rVhdQVrzYW0h-WAqhWJqfWQz3WVoIWX_oWXR0WUCKWOTDWGjy',
    2423: 'W7NqVzDiVogvVekuVVmfVOfnVJc5VHFnVHVFVKdjVQAbVY1HVhQIVruRW0ZXWAmvWJnSWQwgWVpSWX-VWXUpWUBcWOX-WGjL',
    2430: 'W7ieVzRBVp20VeyqVW6gVOr7VJuHVHMnVHiDVKgdVQIpVY2eVhVXVrxWW0dfWAtcWJraWR4mWVu3WYB9WXagWUQcWOfrWG-g',
    2437: 'W7ctVzTAVo-QVe_kVW2BVOrOVJlkVHG_VHTfVKSoVP-cVXjDVh8YVrXRW0HlWASiWJZOWQiHWVgmWXsxWXSGWUAxWObeWGof',
    2444: 'W7gHVzUcVp2vVf2-VW9IVOxEVJueVHOYVHc5VKarVQ4RVXrEVhB4VrfhW0HtWAbRWJYtWQrlWVhIWY1bWXUpWUMwWOftWG_g',
    2445: 'W7hbVzZJVp3hVf6sVW8nVOzsVJtMVHQ3VHazVKb2VQ4MVXplVhCeVrchW0LcWAYSWJfQWQqeWVqKWY2CWXeQWUNQWOo4WG-E',
    2451: 'W7pYVzc1VpCiVfAdVWIdVP26VK1MVHTpVHk5VKdFVQBPVXp-VhGpVrbIW0MFWAVcWJcLWQm-WVlGWX_lWXaTWUO5WOnGWH2m',
    2458: 'W7hvVzZ7Vp1SVf2zVW2EVOrMVJh-VHDVVHLFVKL-VPnWVXa7VguSVrN_W01WWAL0WJMsWQfKWVbMWXwbWXUUWUKCWOifWG-U',
    2465: 'W7_YVzmBVpOoVfI8VWQ3VP3WVK1oVHOOVHdXVKSXVP_OVXcNVh1GVrN3W05YWAJKWJO1WQfZWVcaWX_AWXZ7WUV2WOtHWHG9',
    2472: 'W7wSVzqcVpJtVfMEVWK6VP5qVJvOVHNhVHS7VKOQVPnpVXU-Vgp7VrCiV_uVWA6jWJD3WQRmWVT_WXnqWXTbWUK3WOrDWH80',
    2479: 'W7yQVzljVpN9VfIKVWO9VP2FVJzCVHJqVHUQVKJkVPm-VXPQVgkPVr7NV_maWA2qWJ3QWQPNWVJeWXmBWXIoWUISWOgMWH70',
    2486: 'W8B2V-2jVpc0Vfb2VWbcVPIgVK7fVHVjVHaxVKPnVPqQVXQLVgnaVr6BV_t7WA3fWJFjWQVBWVb-WXxaWXfdWUXQWP2yWHMY',
    2492: 'W84QVzsvVpVqVfPSVWVHVP6IVJ_mVHHGVHQ3VK8nVPc4VX7mVgWCVqpFV_ZHW9nMWIx0WQF9WVI-WXl9WXPtWUOsWOsdWHH1',
    2493: 'W83nVzxlVpUGVfScVWS3VP7_VJx9VHIZVHKLVKAFVPV5VX9AVgORVqqfV_SXW9p9WIsnWQHHWVHJWXn9WXPbWUQ2WOrwWHGQ',
    2500: 'W8FPV-3qVpiGVfcqVWhMVPIoVKAeVHSBVHZAVKHCVPiSVXCMVgYyVqpUV_YjW9kRWIuvWQBnWVINWXksWXTuWUUEWP0jWHSL',
    2507: 'W8HvV-D3VphYVfhyVWcNVPJpVK1wVHQlVHOdVKF_VPYnVXDfVgSVVqtVV_WIW9pnWIwCWQHCWVMUWXpvWXZgWUYyWP7BWHWn',
    2514: 'W8GjV-4ZVpjtVfbiVWfRVPCkVK2qVHGPVHLkVK1rVPR-VWz2VgILVqcVV_JMW9aBWIh8WQ3KWV5VWXceWXH1WULiWOp-WHK6',
    2521: 'W8UAV-R1VpxqVfxeVWrWVPVhVKApVHU2VHOAVK8aVPP4VWy_VgD0VqYoV_H6W9Y9WImeWQ74WVKCWXnUWXdYWUcQWPFSWHe9',
    2528: 'W8NiV-FjVptSVfohVWp-VPPXVKBUVHPuVHOeVK4SVPLzVWt4Vg3_VqQdV_2DW9O2WITYWPxrWU_jWXcwWXKVWUTzWO-XWHX4',
    2535: 'W8TqV-MeVpxvVftuVWsZVPT5VKD3VHRvVHPtVK41VPMnVWp0Vg3wVqIIV_0dW9CQWIQrWPlsWU-7WXU1WXMTWUQIWP5iWHZE',
    2539: 'W8XbV-RLVq1MVfzWVWyRVPYHVKHRVHW3VHSBVK8mVPONVWx2Vg6yVqVPV_6lW9U0WIZpWQ31WV7nWXlTWXUWWUeQWPBAWHkd',
    2542: 'W8e5V-ZFVq3zVg0pVWwAVPWzVKBDVHRYVHJoVK2cVPFRVWq9Vf-TVqOCV-_NW9NAWIUvWP-bWV7KWXlQWXZBWUieWPJLWHqm',
    2549: 'W8dQV-UQVq7zVf_AVW_EVPUPVKDoVHKXVHHpVJrYVP8mVWXtVfq0Vq2xV-o7W91VWIFmWPgDWUsmWXSVWXHyWURIWP2zWHbf',
    2556: 'W8jnV-kSVqF4VgEjVX4aVPgqVKEaVHRgVHCNVJskVOzjVWU3VfcIVpyPV-c8W8xOWI9VWPdeWUuSWXVXWXRqWUanWPK7WHrF',
    2563: 'W8kXV-c5VqGbVg8JVX9KVPeVVKNsVHT-VHPUVJydVPCDVWbpVfp4Vq4bV-kzW93AWIDbWPk0WUtuWXZYWXNFWUc2WPCFWHpx',
    2570: 'W8kMV-ibVqEtVgCFVX3zVPe7VKDzVHOPVHBGVJncVOwtVWLWVfWDVpltV-SaW8iIWHztWPOQWUizWXIXWXIOWUQjWPCjWHio',
    2577: 'W8vaV-qGVqP4VgHtVXBrVPh8VKJ4VHPbVHDnVJoKVOw-VWNEVfUsVpqZV-RwW8raWI0TWPc-WUqTWXc1WXUfWUnhWPRpWI4y',
    2584: 'W8xPV-tYVqVkVgOxVXKQVPoZVKQfVHTtVHIDVJmoVOxLVWEuVfRGVpc6V-KOW8YGWHq_WPH5WUcmWXGtWXHoWUVvWPIFWHtg',
    2586: 'W8pzV-rLVqMCVgKpVX9HVPixVKE3VHNQVH51VJhKVOloVWCEVfJ5Vpc0V-FwW8ZaWHplWPI2WUcMWXF0WXFUWUQOWPDZWHl_',
    2591: 'W8y1V-z0VqUqVgS0VXGjVPoIVKIqVHPdVH5CVJe_VOftVW5KVf7rVpSYV-1-W8PtWHcEWPAoWUSyWXDOWXDEWUWOWPJOWHzR',
    2598: 'W96PV-_NVqgBVgVeVXTFVPsqVKWFVHUdVHJkVJkmVOvyVWCjVfPUVpcdV-KZW8dQWHuxWPREWUkLWXUAWXRGWUkNWPSZWI6p',
    2605: 'W91TV_57VqcyVgbPVXOHVPvCVKMIVHQeVH2QVJYRVOWfVVtbVewDVpApVzqEW89cWHSyWO__WUPlWX8RWXEaWUUmWPM8WHxm',
    2612: 'W98gV_3mVqj8VgYoVXTRVPrrVKR6VHNkVH7WVJW_VObfVVu5Ve-4VpDZVzsXW8FFWHUxWP9QWUTbWXMFWXLlWUmjWPWcWIGN',
    2619: 'W9EnV_G3VqrKVgmnVXcTVQ4DVKaDVHb7VHG4VJhcVOitVVzpVf3CVpCyVzumW884WHTTWOyzWUP9WX7oWXHMWUaMWPVoWI90',
    2626: 'W9DFV_CnVqn9VgfMVXTOVPtCVKK-VHI_VGxOVJNDVOLFVVgwVehRVozvVzYmW7ysWHA8WOqlWU9MWX2NWX5LWUXbWPMpWI8K',
    2633: 'W9PEV_MNVq_xVgrcVXjrVQ48VKbKVHU1VHA4VJUWVOY5VVl1Veu0Vp1WVzmxW837WHR1WO_VWUSgWXGlWXPGWUmyWPfVWIMM',
    2640: 'W9LxV_T0Vr0xVg_1VXmCVQD3VKb1VHYlVH32VJRxVOHvVVZyVeVQVol2VzJtW7iqWG_EWOgCWU6pWW_nWXAVWUatWPWLWIEK',
    2647: 'W9NdV_JdVq_NVgpSVXjYVQ1SVKZBVHOKVH2sVJJ2VOJ2VVSZVeWgVofRVzKHW7fpWG-hWOg3WU5lWX2JWXAAWUgGWPXrWIM1',
    2654: 'W9YLV_d_VrAzVh7XVXtnVQJlVKhaVHetVHABVJY6VOQ5VVfNVedYVooWVzQ-W7keWH5UWOhpWUDIWX3MWXJgWUj7WPkSWIS0',
    2661: 'W9YTV_WxVr8-VgyYVXmlVQ2eVKTnVHHZVGrvVJ6tVO1PVVEEVeDeVoRmVz2xW7UCWGmXWOW-WTxqWWy-WX5iWUfxWPYpWIQ7',
    2668: 'W9cxV_ghVrIWVhAZVXywVQHnVKflVHURVG_eVJE_VO8MVVGiVeIUVoPPVz6qW7PLWGqzWOSfWU27WWxMWXElWUhzWPlEWIW2',
    2675: 'W9hIV_oJVrP6VhJxVY50VQRpVKnDVHdHVH3ZVJKoVO6UVVIrVeAqVoOkVyxgW7N9WGfDWOQCWTu4WWvhWX7RWUh_WPgyWIYY',
    2680: 'W9fTV_hqVrMyVhCGVY10VQHsVKgqVHR6VGxIVJ7OVNz9VV5AVe0eVoBZVymxW7BkWGV1WOHbWTlEWWpiWW_pWUdRWPZbWITv',
    2682: 'W9dPV_ceVrHxVh5SVXxJVQBQVKcTVHLyVGvGVJ35VNzMVV0xVe2dVo74VypdW76oWGX7WOCbWTmNWWlAWX0IWUZPWPZoWIQC',
    2689: 'W9qLV_zNVrWaVhSpVY9mVQXoVKo-VHf_VH2RVJK3VO33VVEiVe5wVoHiVysZW7FTWGcnWOLrWTxEWWxTWXH6WUplWPvOWIjh',
    2696: 'W9ukV_uDVrZrVhL6VY9LVQLRVKjTVHOVVGtzVI-WVNqTVUt4Vdq2VnwcVyZ5W6y2WGKSWO8PWTi9WWpzWX5aWUmaWPmQWIiW',
    2703: 'W9q3V_zdVrZcVhUZVYC5VQWeVKmnVHYhVGvvVJ5TVNqLVUvSVdoOVnu2VyWZW6qgWGGkWNypWTdKWWcnWX22WUbqWPnUWIdb',
    2710: 'WA46W08vVroCVhdNVYNvVQcOVKvLVHbxVG_IVJ7fVNtGVUyrVdqNVn_9VyZZW70cWGLvWOCQWTkQWWu4WXA6WUtKWPvhWIun',
    2717: 'W9vJV_-ZVreYVhU9VYEYVQSqVKl0VHPsVGoqVItEVNecVUe5Vdb7VndvVyKwW6efWG7_WNrWWTXPWWZFWWzoWUZsWPj7WIb1',
    2724: 'WA3YW0EIVrqLVhkPVYQHVQiCVKusVHd9VGuoVJ1SVNfBVUkVVdWAVnggVyD0W6gFWG2MWNw5WTYzWWkGWX8RWUr_WP_FWIyL',
    2727: 'WA9DW0LuVrwqVhsSVYWaVQpUVK-6VHjBVGzPVJ6lVNkAVUpSVdbjVnkZVyI0W6h-WG5dWNvEWTa9WWhSWX8VWUp8WQ0MWIxf',
    2731: 'WA8uW0BcVrvFVhh3VYUAVQdiVKxkVHXEVGwuVIvvVNgHVUb1VdV8VnVHVy8nW6U7WFxPWNlHWTR7WWcBWX1ZWUnFWPwWWIwD',
    2738: 'WA3VW0GKVrqiVhldVYOhVQguVKqjVHZ2VGoeVIwTVNW-VUZgVdL3VnQsVx-HW6LoWFmcWNYsWTFvWWN1WWswWUYJWPokWIkz',
    2745: 'WAQ9W0U5VsA3VhwXVYfsVQmJVK_SVHXsVGsiVIqdVNW-VUTpVdKjVnPvVy0nW6SpWFtcWNnxWTRWWWiMWX6GWUxXWQ4IWJ9c',
    2752: 'WAECW0QHVs2kVhxHVYc6VQpbVKypVHaAVGoHVIoIVNOqVUKaVd96VnAJVxp_W69mWFhqWNUCWTHDWWOzWWybWUeGWPwHWIrs',
    2759: 'WAJbW0UaVs9OVi08VYirVQtWVL1MVHbVVGo9VIlrVNIDVUEXVcyGVn2LVxZaW62EWFS0WNQAWT6uWWRiWWwiWUotWQ0OWJ6_',
    2766: 'WAPBW0WAVsCgVi05VYlAVQthVL5KVHddVGvpVIqKVNU1VUKWVdB5Vn8XVxp8W67jWFg5WNUnWTIQWWVPWX3eWUrWWQ7GWJ8Q',
    2773: 'WAMnW0bFVsAjVi3aVYgHVQt5VKxUVHYMVGglVIhSVNB5VU9lVcr_Vmy9VxSsW5v3WFJsWNEMWSz-WWE_WWoXWUdLWPwSWIzz',
    2774: 'WAKMW0UPVsA7Vh-yVYheVQqGVK-aVHWYVGlVVIftVNH3VU7ZVcyQVmvaVxZFW5sxWFPHWNCrWT1jWWE9WWr4WUdOWPywWI_9',
    2780: 'WAb8W0g-VsP8Vi85VYs0VQtjVL2UVHTWVGidVIXdVN95VTzMVcoFVmn2VxPzW5pDWFK7WNGCWT33WWP0WWz9WUuLWQ9rWJJL',
    2787: 'WAWPW0o7VsPwViKeVYxRVR7nVL9yVHk2VGpBVIlUVNCeVU5uVcn-VmonVxMmW5kmWFFdWN7NWS-3WWDWWWu1WUhrWQ4-WJ72',
    2794: 'WAZ-W0kGVsSrViFFVYyQVQ_qVL7gVHYTVGhiVIV5VM-BVTn7VcT1VmSmVw-aW5RUWEuCWMvCWSgKWW58WWfKWUf1WPxdWJ9g',
    2801: 'WAfxW0sgVsWbViM3VY-wVR65VLAXVHfIVGn1VIdXVN7vVTxXVci8Vmf8VxIoW5fUWFFtWN8OWT3RWWKoWX1-WUtkWQHwWJLI',
    2808: 'WAiYW0xpVsbIViRGVZ2JVR8QVL9YVHckVGfCVIVCVMu2VTjsVcKuVmNXVwshW5L-WEosWMrfWSfcWW5kWWkJWUkFWQ4xWJHL',
    2815: 'WAkXW0uhVsdIViNYVZ2YVR2FVL71VHTFVGaYVIIwVMowVTW9VcGXVm9tVwp3W59qWEmCWMjKWSfZWW3HWWoTWUn_WQDiWJQ0',
    2821: 'WAzKW17aVssvVicZVZIDVRH6VLMUVHiNVGphVIYvVN1OVTmqVcT0VmPlVwyOW5NZWEsHWMtlWSi6WW9XWWnoWUr8WQBfWJSi',
    2822: 'WApYW17dVslZVifOVZDOVRM2VLJ0VHnuVGmHVIdXVMzbVTpsVcPtVmR8VwwxW5MvWEsUWMrBWSjiWW5wWWqGWUn4WQEWWJOl',
    2829: 'WAs1W10xVsnfViWkVZC7VR8hVLC9VHUAVGYrVIDfVMgEVTL_Vc2DVlyrVwXeW4yOWEUdWMWqWSOqWVtOWWYfWUd5WQ03WJI6',
    2836: 'WArpW18xVsnOVifCVZCaVRI8VLDdVHe9VGazVIMxVMikVTTfVc6NVm3kVwfqW54CWEi8WMgpWShNWW3vWWuaWUqxWQMVWJUf',
    2843: 'WA-dW1EfVsz_VindVZQ_VRR4VLR7VHlAVGk7VIPSVMjvVTPaVbz5VluoVwMlW4qcWEJYWMQiWSJWWVuBWWcmWUmSWQCBWJWx',
    2850: 'WAv5W187VsqZVidOVZDsVRDoVLBkVHVlVGULVI8lVMViVT8UVbo3VleAVwFDW4bAWEEiWMDGWSGiWVjSWWbsWUemWQDhWJSE',
    2857: 'WB6VW1QvVt4yVixNVZU6VRWGVLPPVHlxVGevVINpVMdyVTO5VbvRVlu_VwMZW4s4WEM4WMSZWSNyWVwbWWj2WUqdWQLWWJeb',
    2864: 'WBAWW1ONVt9ZVitvVZVsVROFVLLJVHWWVGTdVI0TVMMoVSxVVbbXVlRjVw3FW4SeWE5ZWM9GWSAnWVj8WWYjWUhQWQDSWJX_',
    2868: 'WA_bW1LlVs-nVirrVZMYVROOVLEfVHZ_VGPdVI6kVMJqVT2EVbXjVlW5VvzrW4TIWD_oWM7RWS70WVhHWWYIWUh4WQFpWJYw',
    2871: 'WB1oW1Q3Vt3EViy4VZRxVRUPVLIfVHdDVGQQVI5vVMHbVS-AVbUMVlR5VvxwW4PwWE0-WM6_WSB1WVj8WWdmWUjyWQLfWJb-',
    2878: 'WBG8W1WbVtK2Vj59VZlKVRflVLdjVHpZVGl6VIH9VMYpVT64VbewVlUWVv-WW4P_WDzPWM6GWS53WVkHWWZBWUo-WQKqWJlW',
    2885: 'WB6-W1RiVt5mViwmVZRIVRQGVLFbVHWxVGLyVHzZVMBNVSoLVbKkVlAsVvkoW47FWDoNWLrBWRzsWVVHWWUbWUbgWQHKWJYY',
    2892: 'WBL3W1fMVtNpVjASVZk2VRf2VLW4VHj2VGY3VI6bVMIPVSvlVbNsVlIgVvlfW4G3WDoIWL-tWR-cWVgbWWYDWUq4WQP9WJq_',
    2899: 'WBSUW1lWVtViVjG6VZpsVRhLVLXPVHfFVGTnVHxbVM9WVSemVbCtVk-lVva-W3yYWDfbWLkxWRvWWVWFWWXJWUktWQRbWJoy',
    2906: 'WBEOW1eqVtKnVjCtVZiYVRh3VLRqVHfpVGMxVHwwVL_MVSboVa_0Vkv2VvKdW3qIWDOyWLb0WRg5WVLRWWJjWUaTWQGPWJgf',
    2913: 'WBYvW1r0VtfcVjOqVa0SVRrkVLkMVHonVGe7VI1_VMF9VShQVbDUVk-iVvYFW3yIWDckWLnCWRuuWVbfWWZQWUsyWQWBWJzW',
    2915: 'WBa8W1yIVtgmVjVQVa0WVRxDVLjTVHtGVGcdVI4wVMCfVSh8Vb9EVkv_VvShW3ptWDXCWLd7WRqyWVScWWYXWUmqWQYcWJvy',
    2920: 'WBPHW1pxVtTyVjKnVZnBVRjrVLRBVHdJVGHmVHpcVLsvVSQbVar4Vki4VvC4W3f5WDKeWLUfWRhCWVKZWWPOWUdcWQOTWJl3',
    2927: 'WBXbW1sBVtfIVjOnVZzTVRnpVLcgVHg3VGQvVHqOVLy4VSP5VaqvVkelVv6dW3bPWDC8WLSgWRZFWVMpWWLvWUmKWQRfWJ-h',
    2934: 'WBgDW234Vtn0VjaSVa3BVRx0VLfjVHlyVGRgVHsuVLxxVSOYVarPVkbiVv8VW3WUWDF8WLN6WRdbWVIoWWSuWUlnWQcDWK1i',
    2941: 'WBWbW1wsVtgDVjUOVZ-7VRrlVLaSVHgLVGKPVHmLVLnHVSGvVacyVkTIVuswW3NBWCxZWLCPWRIsWV66WW77WUX4WQFnWJoe',
    2948: 'WBo_W29NVtz1VjiMVaEtVS0ZVLn1VHlVVGRcVHkoVLqCVSAeVaeyVkMlVuxpW3LJWD64WLIPWRZeWVK2WWSgWUqEWQdhWK7h',
    2955: 'WBhpW2AsVttiVjlPVaB0VS4cVLjQVHpJVGMCVHmiVLh8VS99VaRnVkH7VuhuW3C9WCsTWL81WRN4WVANWWJZWUhgWQWhWJ_U',
    2962: 'WBlLW25NVtxlVjgCVaF0VR-uVLmXVHi8VGNcVHdKVLfjVRywVaLuVk1-VuWmW2xtWCdiWKvOWR8AWV0eWW8-WUfZWQTKWK5Q',
    2969: 'WBsaW2KfVu0xVjsgVaGtVS8CVLlrVHpcVGMYVHkrVLgpVS5bVaQxVkBgVugEW35gWCqkWL2WWRNDWV8-WWOvWUnVWQjbWKDH',
    2976: 'WBt4W2GtVu4LVjqAVaK9VS3-VLm7VHhuVGI9VHZgVLXVVRugVaDjVj_CVuQIW2wQWCYVWKtZWR31WUzVWW3gWUboWQOeWK2R',
    2983: 'WByEW2P6VuB7VjysVaPZVS9rVLnEVHheVGD3VHRHVLMYVRejVZ__VjhVVuEeW2edWCSxWKi9WR5KWUwPWWDYWUgOWQedWKCZ',
    2990: 'WByZW2S-VuE5Vk4BVaWxVSLlVLylVHxPVGQHVHijVLY3VRvRVa7NVjvXVuH4W2oaWCROWKo9WR29WU-BWWAkWUjSWQcJWKEt',
    2997: 'WB_UW2OrVuFSVjzwVaVVVSCQVLuHVHkVVGIsVHRYVLNIVRZPVZufVjV8Vt-VW2MVWC79WKOnWQloWUgoWVylWUWtWQTkWK8T',
    3004: 'WC2cW2aQVuH5Vk7BVaUSVSIuVLqZVHp7VGDzVHWbVLJsVRgyVZuyVjfqVu4BW2a7WCIvWKelWR0hWUxxWWGYWUnvWQnzWKOA',
    3009: 'WC73W2eMVuPgVkF6VagjVSTfVM2RVH-HVGQGVHfMVLRWVRlaVZweVjgSVu0XW2XdWCB5WKZsWQseWUsRWW6_WUk6WQh6WKNg',
    3011: 'WCDdW2enVuWSVkD_VakFVSOCVM19VHp-VGL8VHRwVLKpVRXYVZpuVjTgVtw6W2NgWC5UWKTVWQnWWUoLWW1VWUgyWQbJWKKv',
    3018: 'WC4mW2dyVuOdVkDZVabaVSLnVLrNVHjEVG4uVHFVVL0aVRFjVZU5Vj8GVtc7W21KWBrWWK8oWQcrWUY1WVzLWUX0WQe7WKHd',
    3025: 'WCDpW2jYVuYtVkKzVaokVSWVVM5vVHxdVGNkVHX0VLJqVRZeVZm3VjTzVtrrW2NaWC2TWKThWQmpWUp-WW49WUlJWQhhWKSe',
    3032: 'WCEBW2joVuZeVkKVVanCVSScVL__VHnuVGCGVHFlVL2vVRAsVZR6Vi_VVtUlW1snWBhsWJ_GWQTwWURhWVssWUThWQZLWKFf',
    3039: 'WCBKW2lZVuVXVkKOVahLVSQpVLuiVHlaVG49VHEJVKwWVRB5VZJ9Vj22VtPBW1yPWBh2WK8aWQY_WUeNWW0qWUiaWQlwWKUy',
    3046: 'WCSPW2x6VurPVkZZVb3EVSgcVMFrVHz2VGOBVHMyVL9aVRDWVZRnVi-2VtQEW1p5WBb8WJyrWQPKWUU9WVuAWUdNWQi0WKWC',
    3053: 'WCHpW2uaVudwVkTaVanvVSWcVLwUVHlIVF_QVH6SVKl7VQxbVZ1_VihgVt3QW1WxWBInWJhRWQBPWUE3WVkHWUPpWQcPWKMY',
    3056: 'WCKPW2wfVuioVkY9VavAVSd5VM34VHsCVG82VHCSVKsxVR00VZ8lVikrVt9gW1aGWBPMWJlqWQIEWUJ3WVqLWUTpWQgFWKO4',
    3060: 'WCTsW2zfVushVkauVb2QVSefVMAuVHsjVGEXVHDMVKyoVR3OVZEkVisUVtGDW1mMWBWHWJ-pWQOvWUYmWVwHWUj7WQlkWKdG',
    3067: 'WCWJW37MVuxxVkm4Vb7JVSnuVMCDVHwPVG9fVH8UVKmhVQqwVYz8ViWlVszOW1OAWBGIWJeXWQDqWUG_WVqaWUWKWQkMWKU2',
    3074: 'WCMTW2xhVumyVkZOVaxwVSb5VM0_VHkWVF-TVG-0VKajVQh_VYlkViPSVskoW1IUWB27WJbCWQ2pWUHJWVkEWUaOWQhwWKaT',
    3081: 'WCcWW39mVv3aVkpsVbGNVStEVMMsVI19VGL7VHFNVKwvVQvsVZ3WViXtVszjW1KjWBAwWJYqWQ6xWUDwWVnTWUZrWQoNWKfK',
    3088: 'WCXWW3ASVux6VklUVb1wVSi6VM1PVHltVFvzVGx0VKTUVQcAVYdEViGXVsaaW15fWAsGWJLyWPtTWU3EWVcRWUQrWQfzWKX8',
    3095: 'WCd8W39lVv5xVkp1VbFXVSmsVMElVHokVG4bVGw3VKa7VQXYVYgFViAmVsbdW128WAtEWJMaWPvAWU7bWVewWUXrWQjbWKg9',
    3102: 'WCl2W3SRVvGjVl7jVbR2VT4wVMO5VI2wVG8qVH3WVKXmVQY_VYYWVi5QVsSKW0vWWAmdWJEUWPteWU2VWVigWUWHWQrNWKhS',
    3103: 'WCm6W3JNVvFgVkzCVbPKVSwPVMMyVHvSVG8tVGxbVKYvVQT7VYaFVi2CVsThW0v0WAmxWJGbWPtMWU6nWVi5WUbTWQp-WKlw',
    3109: 'WCbBW3AGVv4QVkpvVbEKVSnVVMCEVHmlVFzKVGoEVKKyVQI6VYI_VhrCVs9-W0gfWASHWJ1HWPYyWTtNWVPdWUNzWQb2WKbq',
    3116: 'WCnjW3QhVvINVl5CVbSDVT2TVMPgVI0xVGAyVH1GVKZJVQV6VYY5Vh_KVsPUW0o9WAh_WJ7iWPpNWT-vWVhfWUX_WQvAWKoE',
    3123: 'WCrZW3VVVvKGVl66VbP1VSz4VMFYVHr1VFvuVGmqVKD5VQDUVY9mVhllVs2IW0c7WAO9WI_KWPaLWTwEWVXYWUWJWQoJWKnp',
    3130: 'WCl-W3NYVvKqVl3JVbT5VSyGVMK9VHp0VFy_VGhRVKDqVQ3zVY7kVhYNVryyW0MIWAF-WIlhWPR3WTivWVPEWUMvWQjNWKjg',
    3137: 'WCxjW3i7VvW-VlNxVbexVTG1VMUOVI4kVG4DVGwDVKHZVQFqVY94VhhyVr-DW0UZWAJWWItXWPXmWTqxWVY-WUW4WQw7WKv2',
    3144: 'WCrWW3SJVvQOVl7tVbYEVS_tVMNXVHqHVFyvVGfHVK90VP-4VXzwVhPZVrlnW0CeWA2EWId3WPEbWTbrWVEgWUHaWQawWKgK',
    3150: 'WCxYW3flVvavVlOAVbj-VTFSVMWgVH_jVF_-VGk0VK4IVPxzVXp6VhJLVrZaW06RW9vhWIacWPDIWTfWWVLJWUR3WQnFWKtP',
    3151: 'WCwNW3fyVvWVVlM3Vbd-VTD3VMRXVH-sVFzyVGlaVK6jVP_JVXvgVhMiVridW08bWA3iWIbgWPN4WTg0WVUeWURkWQwSWKuE',
    3158: 'WD4MW3llVvh6VlRCVbnDVTFuVMXsVH-jVG0JVGiYVK4GVPw0VXo9VhGXVrXPW03OW9tPWIYxWPCZWTgeWVNUWUVeWQsPWK-R',
    3165: 'WCyaW3fVVvbIVlMmVbiTVTByVMS-VHvTVFwVVGaXVJzWVPkXVXgpVh1UVrOyV_mZW9iUWID6WO_LWTKUWVAjWUClWQjeWKnS',
    3172: 'WD9LW3wNVvnNVlbTVbrWVTMjVMXeVI0PVFwyVGfQVJxWVPqAVXf3VhAAVrPuV_yuW9nUWISFWP8NWTbCWVMqWUUKWQxlWL3n',
    3179: 'WD8tW3pfVvpgVlXNVbvbVTJdVMbeVHxnVFywVGXHVJwdVPeSVXblVgyZVrKkV_lKW9glWIG6WP0CWTQLWVCkWUJCWQlEWKtB',
    3186: 'WD3SW3utVvmQVldcVbsIVTOcVMVwVHzPVFojVGTpVJghVPUlVXGYVgj2VqziV_TVW9NrWI1HWOs5WTITWVCxWUJRWQuCWKzt',
    3193: 'WDFEW3xmVvyGVlgzVc3JVTTcVMl5VI4rVG3yVGdLVJyDVPewVXVVVgsZVr83V_cFW9TVWI9ZWOuKWTQfWVDnWUSMWQvYWL7z',
    3197: 'WDFEW45MVv-1VlrAVc3wVTatVMh0VI5tVFvIVGX5VJiAVPSnVXDeVgc_VqtxV_LVW9H9WHvMWOm6WTCGWV9DWUGZWQuUWK_k',
    3200: 'WDCnW3_WVvumVlibVbycVTRhVMaqVH_JVFt8VGUTVJjvVPSKVXGWVgbyVquvV_HkW9E1WHo0WOesWT2hWV0CWU78WQl-WKtb',
    3207: 'WDI-W43yVv_NVlm0Vc17VTRfVMatVHwdVFniVGMQVJaXVPKgVX6TVgYXVqnBV_KKW9AZWHwcWOgfWTGXWV72WUOkWQwCWLAz',
    3214: 'WDQEW4BXVwBvVlyVVcHAVTgJVMrOVI7aVF_hVGUHVJkOVPM1VXCYVgUVVqqsV_DdW9D8WHpwWOikWTAjWV87WUJAWQw5WL5C',
    3221: 'WDFFW47wVw2wVlwEVc8rVTdNVMgtVI1LVFlxVGIoVJNdVP4xVWlSVg8-VqKWV-sAW8kGWHTuWOJmWSvNWUtKWU8EWQnKWL0q',
    3228: 'WDQTW490VwBfVlvXVcGpVTdIVMq_VI4QVF-TVGQGVJgwVPGVVX5pVgNWVqhLV_6lW93QWHlcWOc1WTAzWV6GWUOTWQz7WLEo',
    3235: 'WDT2W4LlVwEsVm51VcH5VTkdVMm8VI5_VFpjVGLlVJQxVP6DVWoFVg7uVqM8V-omW8krWHPeWOKGWSs7WUvIWU7jWQs6WL3J',
    3242: 'WDRDW4CbVwD8VlwvVcDbVTXxVMfbVHsRVFg4VG4RVJEuVOr7VWaeVfvPVq8WV-fDW8Z6WHMAWOCOWSv6WUsWWUGTWQtlWLFe',
    3244: 'WDVoW4IVVwLNVm4gVcP9VTkPVMsxVI3GVFtMVGFLVJR6VOz7VWm6Vf-xVqJbV-inW8izWHNgWOJeWSuFWUwWWUDbWQvtWLCu',
    3249: 'WDbZW4TtVwTGVmHjVcY2VTxuVM_gVIG3VF_1VGQMVJWqVP4vVWo_Vg2FVqJtV-i2W8hzWHKgWOJ1WSrMWUy5WUCtWQ-9WLE0',
    3256: 'WDW_W4PbVwO1VmBkVcQkVTp2VMqtVI3ZVFl6VG9cVJAaVOmgVWNXVfiyVpsCV-N-W8FIWH37WNvsWScuWUdJWU1cWQjnWL6b',
    3263: 'WDaKW4NmVwQjVm9nVcTNVTnOVMt-VI23VFpMVG8QVJHFVOmeVWXcVflCVq3iV-TdW8VeWHCyWOCBWSqEWUv-WUFyWQ-VWLIn',
    3270: 'WDhhW4fMVwbfVmTQVcf0VU4AVN1EVIHIVFtIVGHsVJDmVOomVWMEVffeVpoWV-IIW8DLWH01WNzXWSfhWUniWUALWQz2WLIU',
    3277: 'WDanW4OLVwTDVmAQVcU5VTkQVMpaVHv9VFdxVFunVI-2VOQOVW6dVfJJVpYsVz_HW7zqWGnTWNlNWSWKWUcUWU6BWQrUWLIX',
    3284: 'WDiAW4gOVweZVmVjVchrVU5ZVN2YVIGtVFtIVGFsVJDIVOlHVWLHVfaEVpmRV-AjW89WWGsrWNuOWSWnWUjaWU4iWQz8WLIu',
    3291: 'WDpyW4iFVwl0VmUbVckBVT-wVM-UVI3XVFhsVFykVIxVVOPfVV_tVfGMVpQiVzxcW7rpWGirWNdTWSQkWUVcWU1fWQnqWLHz',
    3298: 'WDgMW4bMVwdqVmQPVcfJVTyjVMwtVI1AVFdoVFtYVIrnVOG6VVvBVf3cVpL6VzkVW7p5WGYVWNetWSL5WUawWT_rWQu_WLHC',
    3305: 'WDsoW4t1VwuUVmlnVczFVUKIVNFjVIOfVFw7VGC7VJ1_VOVGVVz0VfCCVpH7VznVW7h8WGZKWNYPWSO3WUa0WU7VWQ-8WLTM',
    3312: 'WDo0W4ewVwknVmSoVcktVTzZVM-eVH_wVFeTVFojVInJVO67VVjrVeq3Vp30VzRQW7TtWGGbWNM2WS8_WUOYWTxcWQqCWLKG',
    3319: 'WDqkW4t1VwrNVmj8VcsGVUDJVN4VVIDxVFiTVF_gVIqWVOIpVVnOVf05Vp7PVzbPW7Y-WGNTWNRYWSD9WUUmWT_1WQyLWLPM',
    3326: 'WE5uW4_NVx6LVmpcVd3iVUEZVNBTVI7oVFhcVFoJVIilVO15VVbLVekcVowZVzOpW7ONWGHiWNKFWSDVWUQtWU3_WQxNWLXB',
    3333: 'WDmFW4pGVwrfVmieVctUVUBGVN1fVI5CVFXZVFjCVIWVVNt2VVMdVeV2VoggVz4wW78vWFxvWN6cWRuTWUF-WTnOWQpTWLHO',
    3338: 'WD-PW52QVx1CVmu7Vc_2VUIeVN5QVI9dVFYoVFmgVIWtVNxaVVNnVebcVojKVzDDW7DSWG5hWNDqWS46WUQGWT_AWR0bWLXC',
    3340: 'WE0OW50gVx76VmxPVdAfVURXVNL-VIMPVFrEVF-1VImxVO6DVVXzVeiGVon1VzH3W7COWG8PWNAJWS6kWUL-WU1yWQyEWLaE',
    3347: 'WD-SW4xtVx1iVmonVd0zVUF2VN8wVI6sVFcfVFiQVIYhVNp8VVK_VeO0VobOVyySW71kWFqlWN0aWRrFWUDIWTolWQqGWLM7',
    3354: 'WDyAW50-Vx2ZVmvTVd2NVUL1VN8hVIAnVFZAVFjqVIRGVNoXVVAUVeMDVoPQVyvrW6sXWFoHWMumWRqmWUAfWTrzWQtJWLTi',
    3361: 'WEF-W5DFVxNPVn5XVdLSVUTwVNNRVIEEVFiVVFhLVIVnVNhSVVBUVeCrVoO4Vyn7W6qWWFjSWMudWRs4WUENWTzTWQ_3WLfe',
    3368: 'WDzMW55KVx7gVn0yVd95VUSOVNDDVIDpVFYDVFfjVIJoVNcoVUzMVe49Vo8qVyaVW6bOWFTCWMfKWRYEWT-MWTdhWQleWLKt',
    3375: 'WED0W5DAVxNaVn7sVdN3VUWRVNNpVIEQVFf4VFdWVINEVNZdVU-aVe33VoA2VyeWW6ejWFdUWMlmWRntWU7eWTwcWQwUWLf0',
    3382: 'WEC8W5HUVxMyVnCIVdMCVUacVNMQVIHUVFcjVFe1VIJUVNWGVUvuVdxvVo60VyV0W6cAWFT5WMkfWRduWU7mWTndWQxEWLWB',
    3385: 'WECuW5F-VxOrVnAeVdMmVUWeVNK2VIADVFX2VFTeVIA-VNJdVUk_VdjdVnuQVyFHW6MRWFDhWMVsWRSKWTzWWTiDWQs_WLWt',
    3389: 'WE65W5CHVxJPVn8JVdJAVUW5VNI3VIBEVFVAVFVDVI6_VNKVVUdVVdjIVnk8VyEPW6BsWFDBWMN4WRScWTtUWTjpWQpiWLZz',
    3396: 'WEIKW5KwVxVtVnH7VdVHVUeOVNTYVIIUVFgTVFbFVIItVNPHVUq2VdmbVnwEVyG4W6MGWFEJWMW3WRUyWU0WWTomWQ-MWLh_',
    3403: 'WEEUW5PPVxTLVnLpVdS4VUhLVNNpVIIsVFXcVFZYVI7NVNMAVUccVdh_VnhmVy9SW67kWF5CWMHlWRJ0WTnzWTaUWQloWLTL',
    3410: 'WEKIW5NDVxb5VnK4VdYZVUcmVNPvVI8TVFT3VFH_VHyGVM_YVUNrVdLLVnTZVxuPW5zjWEy-WMDFWRJKWToWWThHWQqGWLeF',
    3417: 'WEN4W5a1VxgNVnZtVdg-VUvdVNauVISzVFelVFbbVI6XVNFSVUVTVdVsVnZBVxztW63NWE_gWMKmWRLXWTy0WTjXWQ-MWLfi',
    3424: 'WEKtW5RkVxeqVnRvVdfiVUnAVNYNVIIXVFYnVFNeVHwhVMyyVUC4Vd9LVn8rVxbdW5b7WEecWLt1WR34WTZqWTYpWQkVWLdL',
    3431: 'WENQW5VxVxf4VnTSVdc-VUmSVNURVIHdVFWoVFOgVHzUVN0-VUL3VdG7VnNJVxjzW5skWEnRWM9VWRBuWTrdWTh0WQ-oWLkM',
    3432: 'WEWOW5brVxpMVnZmVdmwVUr9VNbgVIIzVFZUVFMUVHxCVMyXVUEGVdAuVnCyVxf7W5gpWEkAWL-ZWRBGWTjnWTk4WQxMWLrg',
    3438: 'WEXGW5joVxr_VniJVdp7VUyYVNcJVIOlVFYQVFQoVHutVM_vVUB_VdE1VnBqVxhHW5fyWEjdWLygWR7OWTgCWTdDWQs2WLir',
    3445: 'WEQTW5YHVxnXVnY0VdkIVUmZVNUNVI87VFLVVF3xVHd1VMZSVTt1VcknVmsKVxDgW5MyWELoWLkDWQtCWTX1WTULWQo5WLft',
    3452: 'WETgW5lbVxu5VnpZVdvjVV6tVNk0VIXvVFd3VFUkVHtqVMygVU5EVd4DVn1WVxU4W5W7WEXTWLsnWQ_VWTfjWTamWQwzWLlL',
    3459: 'WEZRW5i2VxzOVnkpVdzEVU_oVNkuVINnVFaWVFGgVHmDVMfbVTsqVciWVmidVx4yW581WEB9WLVXWQkeWTM4WTPuWQh-WLfn',
    3466: 'WEScW5i3VxqHVni4Vdn0VUwEVNWFVIGIVFLCVF8sVHYuVMZ8VTkKVceiVmh8Vx4ZW5DqWEDyWLgsWQpnWTaWWTW4WQx4WLl6',
    3473: 'WEkuW5z3VyBxVo0ZVeAQVVETVNtgVIXIVFdTVFKtVHjrVMfoVTn6VcgrVmcVVx3cW542WEBlWLVXWQobWTRLWTYXWQstWLt1',
    3479: 'WEUBW5mWVxv1VnoJVdsKVU_YVNZMVIIVVFJuVF6wVHS4VMTEVTY4VcV9VmPrVwtKW4usWD-WWLM1WQbkWTK0WTMwWQnLWLic',
    3480: 'WEa3W5nsVy0fVnqlVdzcVV0TVNdqVIFMVFKBVE-QVHONVMFuVTRtVcFQVmJHVweRW4p8WDoNWLHIWQTJWTH5WTIvWQnQWLiu',
    3487: 'WEaoW5uWVy4CVn-AVe4FVVCjVNn0VITxVFUUVFEeVHYMVMXEVTasVcXGVmRGVwvcW4wMWE1WWLNlWQf8WTL_WTQxWQqMWLoG',
    3494: 'WEp6W5_tVyJfVo5PVeH_VVGzVNwaVISnVFYLVF6fVHWJVMI_VTU2VcF6VmHEVwd5W4laWDokWLF0WQWIWTGWWTNQWQngWLo2',
    3501: 'WEY2W5tjVy1QVnxpVd-KVV68VNbtVIHFVFC_VEwaVHANVM5qVT7qVc0mVlz5VwPIW4WnWDdWWL6-WQOYWTEVWTIzWQpeWLlH',
    3508: 'WEqlW64VVyPNVoD3VeP-VVQ5VO3DVIbtVFfWVFDdVHZ6VML6VTPcVcAlVm5kVwTnW4WYWDeFWL1QWQPHWT9RWTODWQptWLxR',
    3515: 'WEmXW64CVyGxVo84VeCMVVG6VNmuVINdVFKAVEyEVHCzVM1pVT5AVbspVlr2VwAJW4KDWDM5WKuvWQ9BWT45WTAgWQnCWLmV',
    3522: 'WEiQW614VyHyVo92VeGWVVIVVNq_VIOyVFLoVEx-VHBVVM1OVT1UVbuEVlmfVwEMW4G3WDRkWKr1WQEjWS_zWTEwWQiTWLpl',
    3526: 'WEuVW6C1VyR4VoH4VeMeVVO8VNvDVISuVFPPVE-LVHFVVM1mVT67Vbs2VlraVwAGW4LgWDODWKyVWQEBWTA0WTH_WQueWLuz',
    3529: 'WE_NW6IrVydIVoRwVebAVVZ7VO5hVIZhVFVxVE-7VHETVLwtVS_OVbiIVljMVw29W4FAWDJrWKuQWQC-WT7eWTIbWQtKWLwt',
    3536: 'WEfTW63iVyHsVoDcVeG-VVM3VNodVINkVFCvVEoSVGvyVLkEVSeIVbTTVlJmVvmiW3r9WD1JWKXMWPx-WSraWT4eWQg0WLlq',
    3543: 'WEtuW69wVyXvVoLVVeYnVVV_VO6dVIZiVFYvVE_bVHGfVLwtVSz5VbdrVlZvVvu8W3_YWD6mWKdBWQ1QWSvqWTCOWQlzWLxS',
    3550: 'WEyxW6MwVyZWVoTOVeU0VVWlVNwaVIThVFHEVErGVGyqVLl4VSgQVbRrVlKPVviPW3qkWCyBWKXWWPusWSugWT5-WQnqWLsR',
    3557: 'WEqIW6ADVyWmVoLNVeUjVVQVVNxYVIMPVFFfVEhGVGslVLYCVSVVVbECVl6IVvWdW3bEWCo-WKHiWPnqWSfkWT1CWQb5WLqW',
    3564: 'WF4RW6VRVypNVoiKVeneVVmbVOC8VIeSVFRXVEsTVGz0VLbhVSXlVbBlVl7kVvRhW3enWClCWKPCWPoCWSsGWT70WQsRWL-x',
    3571: 'WEt0W6INVybPVoVkVebRVVcKVO2YVIWmVFI_VEm3VGp0VLVBVSKaVb4KVkt0VvIgW3LDWCaMWK4YWPc5WSXuWSwHWQYwWLoQ',
    3573: 'WEuXW6ClVyaoVoN2VeX6VVPrVNwtVIHlVFAOVEX1VGhyVLHxVSFjVavRVkpwVvBFW3KYWCY9WK6yWPe_WScVWT09WQdxWLuS',
    3578: 'WEzQW6K6VyieVoXaVehoVVcqVO78VIV9VFMBVEiMVGrdVLPZVSN2VazJVkvXVvC5W3OgWCW_WKAJWPdmWSgWWT0cWQjpWLxS',
    3585: 'WF5FW6agVyqZVomcVemzVVn-VO7mVIbfVFHxVEkvVGjPVLPaVSCjVay6VklYVvAiW3HYWCWAWK7QWPeAWShrWT2aWQoKWL-n',
    3592: 'WE-0W6MaVynnVobqVemAVVdrVO6YVIQ4VFEiVEWoVGd7VL8ZVS2LVaeOVkWCVurQW2zoWCBOWJnWWPLvWSMuWSquWQXbWLtD',
    3599: 'WF3xW6bPVyufVorGVes-VVsjVOC2VIcvVFHuVEgTVGe5VLEnVS2VVahhVkXaVushW31TWCBIWJtLWPLXWSV5WSsGWQjHWLyB',
    3606: 'WF7DW6Z9VyxlVop2VewQVVqjVOFZVIayVFKgVEeWVGfBVLD4VS0wVagYVkT6VusVW2wdWCBfWJknWPLXWSL0WSqkWQX6WLuD',
    3613: 'WF1uW6WEVyukVonNVetBVVniVO9fVITlVFA4VEQaVGP2VKtfVRizVaG0Vk96VuRPW2gbWBrKWJb_WP7fWSKUWSlNWQd3WLuP',
    3620: 'WFANW6j5Vz2kVo_LVf2LVW0RVOLNVIj0VFLHVEfoVGY4VL5zVRoYVaSgVkBLVucHW2hEWB_6WJdiWPHeWSOrWSwEWQjiWM3x',
    3627: 'WFCBW6eCVz58VowTVf40VVwRVOLOVIaeVFJ0VEU8VGTWVKstVRhOVaA7Vk0PVuGUW2RlWBdnWJL5WOxaWS6VWSerWQVpWLvj',
    3634: 'WF6mW6iCVy_cVozFVeyJVVwKVOAVVIXjVF5oVEQ8VGG9VKpsVRWQVa9IVjvvVuHyW2QeWBgoWJOXWO_6WSCsWSiVWQdoWLzX',
    3641: 'WFMEW6qQVzIVVp86VfGnVW5NVOTkVIgIVFLLVEUlVGQ-VKr5VRc_Va9eVjzmVuK2W2SyWBlOWJPSWP50WSC7WSoCWQbMWM2N',
    3648: 'WF6RW6jSVz6QVp3tVf63VW1EVOHYVIYzVF4tVEG-VG4GVKUlVRAIVZhGVjULVtnYW1_zWBEPWJ37WOg8WR-OWSVJWQVjWLsa',
    3655: 'WFCOW6mAVzBzVp72VfDPVW6yVOSJVIiiVFJ1VEUhVGJuVKl3VROfVZyWVjfRVu2CW27FWBTOWJ7ZWOtYWS1vWSi6WQZhWM3U',
    3662: 'WFNIW6vbVzMWVpEyVfLCVWBdVOWRVIjHVFJjVEQmVGHjVKc3VRJnVZkDVjXeVtlHW1yVWB8FWIxcWOZ-WRtrWSTEWQTvWLwT',
    3667: 'WF7aW6k-Vz84Vp5uVf8BVW3OVOJHVIZvVF4QVEElVF_hVKNdVR0UVZV2VjG0VtX_W1lqWA-pWIqoWOU5WRr8WSPEWQSsWLsc',
    3669: 'WFCGW6qQVzAxVp7_Vf6xVW0zVODwVIUZVEy-VE9iVFuzVKM9VQyQVZYEVjEMVte5W1lIWB5xWIrSWObxWRtbWSXoWQWrWL_a',
    3676: 'WFU-W723VzaUVpRRVfaXVWMWVOhWVInwVFMuVENeVGD1VKTWVRAHVZaKVjN2VtdyW1qeWB6XWIv0WOePWRwAWSc1WQZfWM60',
    3683: 'WFI4W6_1VzOYVpPBVfO_VWJwVOUbVIisVF6SVEE9VFtwVKEfVQnAVZGVViyXVtH5W1S7WAl2WIahWOIZWRhEWSK3WQQqWLvN',
    3690: 'WFHmW6s6VzN1VpFeVfNoVWBbVOVkVIdjVFB0VED3VF_KVKHSVQvrVZMwVj4-VtQqW1ZQWAwwWIgHWOU_WRkyWSVXWQSEWM2W',
    3697: 'WFVmW7A3VzcqVpa1VfcUVWTrVOhBVIrhVFI1VEL6VG1dVKIaVQuBVZHLVj0vVtF_W1UWWAjnWIceWOJVWRl5WSOpWQXcWM17',
    3704: 'WFJ2W6ywVzPHVpKxVfMHVWBJVONHVIVmVEwSVDzHVFdDVJw-VQSHVYxuVibFVs-BW15WWAWlWIIzWOC6WRXwWSMVWQPbWM1v',
    3711: 'WFSbW75tVzg5VpagVficVWVNVOmMVIqkVFJVVEFqVFzyVK8VVQk-VZ2-VioaVs-yW1CuWASmWILBWO60WRXcWSHgWQQhWM1P',
    3714: 'WFUHW74HVzelVpW-VfgIVWRVVOkWVInjVFITVEDvVFzcVK8AVQlhVZ5CVir2Vt4ZW1HmWAbhWIS3WOGMWReEWSQNWQUcWM6j',
    3718: 'WFW8W7GDVzhJVphmVfg1VWXzVOe-VIoXVF6_VE9OVFixVJ_LVQRdVYvBViVyVsrzW0zYWAL9WIAFWN_cWRQTWSCIWQMaWLzo',
    3725: 'WFNSW6_3VzaLVpSSVfapVWK6VOahVIarVF2PVDwsVFdYVJmGVQLTVYgtViPQVsgjW0tbWAEmWI5YWNziWRMXWSCcWQHwWLzV',
    3732: 'WFb5W7NaVzrjVptkVfteVWlhVOsLVIzpVFGGVEEMVFlZVJx-VQNEVYkNViNIVseYW0s2WABTWI8SWNz9WRVVWSGtWQWkWM6K',
    3739: 'WFS_W787VzhIVpbmVfgnVWR8VOd9VIdUVE_HVDtSVFSzVJbdVQ2pVYPXVi19VsM2W0UvW9xhWHo1WNn2WRCQWS9WWQIHWM3Q',
    3746: 'WFS6W7BdVzkgVpipVfmrVWafVOlIVIocVF9MVE3BVFetVJmYVQFvVYXmViDhVsPVW0eFW9vPWHsqWNgJWRDoWS1EWQJDWLz2',
    3753: 'WFivW7USVzzdVpy3VfwzVWjZVOoAVIpxVF49VD-9VFTDVJetVQ1WVYRlVi0LVsNJW0UOW9xAWHndWNlRWRDJWS92WQMKWM6Z',
    3760: 'WFRpW79NVznTVphxVfp2VWWoVOiGVIdVVEzYVDkuVFJwVJL7VPqyVY43VhnJVr-SW0EcW9akWHYyWNTIWR0EWRwVWQAJWLvz',
    3761: 'WFQpW7CPVzl2VpjwVfmOVWZ2VOgQVIh9VEyhVDqIVFJIVJRqVPpfVYBFVhl9Vs54W0BxW9fPWHVhWNV2WQyIWRvdWQ5kWLtR',
    3767: 'WFaMW7SqVzzwVq2tVg2QVWvjVOyOVI_xVFBOVE3tVFSUVJZxVPsiVYBaVhjoVs0LW0AKW9a_WHYdWNVsWR6SWS1ZWQMpWM5G',
    3774: 'WFdDW7KPVzysVpseVf-5VWh5VOsmVIn1VF64VDrkVFNUVJMYVPmnVX-pVhbhVrqhV__nW9QuWHL_WNN8WQujWRwNWQ9iWM0N',
    3781: 'WFVJW7LQVztAVpugVfuGVWiCVOlPVImHVEzKVDpRVFEnVJJCVPfXVXwKVhWiVrkXV_ysW9IvWHKdWNEaWQvGWRp5WQCoWLxR',
    3788: 'WFpUW7coV-CaVq9MVgBJVWuUVOyaVIrlVF2hVDo7VFCaVJDaVPX_VXqMVhNEVrhwV_qtW9LRWHGMWNMLWQvyWR_jWQIEWMBl',
    3795: 'WFYsW7O0V-14Vq02Vg4VVWp2VOuDVIn0VE-8VDgsVF69VJ1nVPPSVXZqVhCsVrNTV_egW8-nWH2wWM_tWQiNWRgvWQ5dWLvP',
    3802: 'WFbgW7WdV-5NVq9eVg9aVWyoVOyyVIv-VF0pVDo0VF59VJ6XVPKGVXcFVh4iVrOOV_WOW8_qWGzTWN2RWQgzWRlUWQ82WM0U',
    3808: 'WFgGW7bdV-9FVqDaVgC6VW_QVO-8VIxDVF1DVDoAVF5qVJ67VPMPVXbtVh91VrOqV_dBW91eWH5yWN5EWQpgWRoTWQFyWM2a',
    3809: 'WFl-W7XfV-DSVq8WVgFiVWwIVP2DVIt0VF6LVDl8VFBbVJ3xVPRMVXZmVhBAVrMKV_bJW8-xWH0eWN2sWQiOWRmVWQ7jWM0r',
    3816: 'WFZfW7WBV-3IVq7qVg5BVWuDVOrTVIo2VEs8VDcOVEtNVIskVP3ZVXIHVgnxVr20V_E4W8gZWGknWMnmWQY3WRbFWQ5GWLxh',
    3823: 'WFnJW7cyV-JbVqGJVgMBVX0AVP51VItlVF2kVDfAVF09VIsxVP83VXGxVgoDVr0sV_BUW8haWGhuWMskWQXeWRkvWQ8RWM9G',
    3830: 'WFk3W7f-V-HpVqKtVgLWVX5dVP4ZVIyaVF1HVDhUVEz0VIrNVP3cVXB7VgjWVqtHV_6cW8UMWGbdWMcLWQPlWRTQWQ12WLvq',
    3837: 'WFfPW7b2V-EqVqGKVgHlVW-rVOzVVInxVErTVDTEVEiZVIbeVOmSVWzFVgQdVqjiV-sPW8PcWGPVWMbeWQHYWRVJWPxWWLz9',
    3844: 'WFrsW7keV-S6VqQuVgVpVXADVPC2VIz5VF3kVDcXVEvrVIhyVOypVX0zVgcwVqmdV_3CW8TaWGcrWMheWQU-WRccWQ7rWM3g',
    3851: 'WFfZW7hQV-JLVqQ1VgOSVX9NVP3UVIvxVEtGVDV3VEdBVIUhVOYtVWj8Vg6TVqN6V-WEW82PWG7bWMK4WQ8GWRMPWPxAWLxi',
    3855: 'WFeuW7ZmV-K_VqKaVgRjVX54VP7GVIrXVEw_VDPzVEhCVIPNVOdfVWeQVgBbVqJWV-aEW7_fWG8zWMHOWQ6EWRIkWPrzWLso',
    3858: 'WFjXW7btV-MYVqJwVgRGVX3QVP71VIrHVEyyVDSfVEldVIUcVOitVWkOVgFaVqOvV-ceW84nWGB5WMNHWQ9qWRQrWPySWM1o',
    3865: 'WFtqW7wRV-YMVqeSVgbWVXLBVPDYVJ2vVE_QVDcPVElBVIb2VOgpVWnQVgDAVqOQV-alW80sWG9ZWMGZWQ8eWRJFWPytWLx-',
    3872: 'WFmPW7ivV-SIVqR5VgUWVX5UVP2-VIkhVElAVDCqVEOlVI82VOGVVWLiVfozVq2VV-DmW7oPWFt6WM8sWPwyWRGuWPpAWLyz',
    3879: 'WFs5W7tkV-cBVqgVVgiiVXOoVPJ-VJ3HVF0NVDV7VEdrVILFVOSbVWSwVfypVq4-V-N2W7p7WG1cWMAjWQ7GWRKLWQ03WM0m',
    3886: 'WFpbW7tKV-b3VqhYVgjDVXQrVPKpVJ4cVE-cVDTOVEWEVIEaVOD6VWGzVfc6Vpr0VzyKW7XoWFdcWLxUWPoNWRAGWPoUWLz1',
    3893: 'WFkkW7hoV-TdVqSwVgYOVX9SVP89VIofVEpPVDDYVEPWVI2YVOC8VW92VffoVpmbV-2NW7WGWFjwWLxmWPtJWRAlWPr9WLyQ',
    3900: 'WFyqW84-V-l-VquIVgq_VXZEVPNfVJ8LVEzmVDUDVEUIVIETVOCHVWGoVfcwVpqLVz-DW7WXWFgNWLwOWPsKWRAUWPuSWL_r',
    3902: 'WFvzW7yVV-kpVqoOVgsrVXVwVPRHVJ5fVF0eVDQAVEUPVI8IVO8cVW9CVfW1VpjOVzrtW7RaWFXbWLtDWPjvWR94WPnNWM0N',
    3907: 'WFtXW7skV-h9VqfPVgkLVXHIVPCzVIneVEk0VD2fVEA2VHlmVNr2VVnsVfEfVpOnVzdPW7BJWFMuWLiQWPdJWR3TWPkQWL-Q',
    3914: 'WFmSW7wCV-fOVqouVgohVXWUVPM0VJ45VEutVDKnVEJqVH-8VNy0VVwHVfIgVpQpVzfJW77sWFNRWLbNWPdMWQx4WPl2WLsn',
    3921: 'WG02W84tV-uWVqyPVh0GVXdpVPX6VJ8jVF0cVDMRVEMoVHyQVNuzVVs1VfAVVpMRVzUwW75kWFD_WLchWPWqWQ_lWPhbWL-2',
    3928: 'WFogW7tJV-fMVqipVgkkVXM8VPDeVIr9VEi0VD16VE2VVHcAVNdLVVWaVezXVp3VVzN5W6sYWFAdWLRrWPWfWQuAWPiYWLt2',
    3935: 'WF-QW8A9V-wqVr3wVh3AVXkbVPY3VJCSVEzWVDLNVEElVHsCVNiuVVhTVeyEVp91VzH0W6uYWF47WLTnWPTqWQzLWPlrWM1e',
    3942: 'WF_iW833V-wQVqwxVh0GVXYaVPRTVIyGVEp8VD1EVE1xVHVfVNVTVVKZVel8VophVz4cW6caWEv8WLGmWPLZWQs1WPhIWL_U',
    3949: 'WFlAW7-MV-kkVqwgVgubVXbiVPMeVJ1gVElxVD7uVD_MVHcUVNSuVVQ4VeiJVosIVz1IW6afWEqGWL9BWPE2WQfYWPXpWLmu',
    3956: 'WG8nW8FnV_8-VrBIVhGcVXoeVPfoVJ8iVEyOVD8CVE4nVHXUVNSuVVJSVefnVooSVy_JW6cgWEr4WLHWWPI9WQseWPeZWM0l',
    3963: 'WFpaW81KV-qTVqzeVgynVXbwVPMgVIyJVEfLVCwOVDmbVHG1VN6yVUzQVeJbVoPeVyhXW6DyWEbRWKxYWP7RWQasWPY0WLn_',
    3970: 'WFwfW87-V-_cVr86VhBaVXpKVPdlVJBDVEwJVD8uVD-NVHS8VNEaVV5WVeJOVoSyVyaHW6DeWER3WKxCWO_KWQecWPVyWLxm',
    3977: 'WG64W8FgV_7SVrBPVhEKVXnbVPbiVJ5DVErOVC_-VDujVHHOVN9sVUvqVeGIVoHCVyYbW63FWEQwWKphWP0zWQaJWPZGWLwH',
    3984: 'WFqZW876V-wyVr6rVh4gVXkEVPRuVJ0eVEfHVCvhVDgNVHAsVMwlVUqTVe1yVoCyVyLlW5-mWEFFWKjEWOrLWQRDWPNFWLll',
    3991: 'WGBMW8MqV_KKVrNYVhT9VXyKVPl_VJ8fVEsNVCvcVDlnVH3LVMwEVUf3Vd-wVo2yVyK3W5wyWEHVWKnEWOy8WQcCWPYLWL__',
    3996: 'WG50W8J7V_EFVrKTVhO4VXwlVPioVJ9OVEruVCyoVDo4VH7tVM-6VUiVVe1tVo27VyJCW5psWEBlWKb2WOpJWQNxWPOnWLny',
    3998: 'WFufW8DzV_3KVrHSVhFXVXvlVPbWVJ8fVEjRVCvyVDcEVH1MVMkQVUYVVdmmVntIVy55W5hWWE3bWKWKWOmdWQLvWPPOWLn6',
    4005: 'WFw6W88BV_5gVrCJVhIfVXrVVPfiVJ5VVEoAVCtLVDfqVG-7VMkYVUTuVdh_VnnhVxxtW5bzWDu5WKSUWOb_WQLQWPHrWLqT',
    4012: 'WG65W8NxV_F-VrP8VhOzVXzyVPhWVJ9jVEmxVCufVDe6VG-3VMkiVUTDVdl0VnmMVy1fW5aYWE04WKRyWOllWQMKWPSnWLsT',
    4019: 'WFx4W8FlV_9OVrJ-VhKAVXuuVPbbVJ2YVEdaVCkMVDPtVGmqVMRZVUEZVdOgVnXyVxgDW5N4WDfkWKGAWOSXWQDBWPDoWLmk',
    4026: 'WG3GW8LPV_LRVrSdVhXiVY1hVPnXVJ80VElFVCjnVDSKVGfYVMPlVU29VdKJVnJCVxa-W59NWDbXWK6iWORcWQA3WPHoWLq5',
    4033: 'WG13W8QZV_IdVrYCVhWKVY9GVPoTVJHqVEnVVCubVDTyVGppVMPUVUATVdI1VnOdVxXqW5BwWDYlWK6bWOOwWQ78WPEVWLlK',
    4040: 'WFzNW8EjV_GvVrN9VhUEVXydVPjlVJ1nVEe-VCadVDHbVGSPVM9dVTnPVc_zVn1NVxG6W4w0WDJdWJxIWODLWQ1dWP65WLjX',
    4043: 'WF-4W8HzV_J6VrQmVhVyVX_BVPkMVJ3WVEfCVCcoVDIMVGVsVMB2VTrvVd1OVn5pVxGkW4y_WDJ0WJyeWOCSWQ2rWP6gWLmO',
    4047: 'WG3zW8UBV_NYVrbzVhZiVYA6VPnpVJDuVEh_VClSVDK3VGbhVMCIVTuyVd4FVn7mVxNaW4_yWDUSWK1IWOQoWQ88WPL8WLqH',
    4054: 'WG3eW8Q8V_QpVraIVhe3VY80VPqlVJ9UVEhZVCdjVDEhVGQKVM0lVTgHVco4VmsYVw_qW4jjWD4TWJn3WO3VWPzRWP4aWLnF',
    4061: 'WFxZW8KIV_JmVrVNVhXYVY3ZVPkCVJ4WVEafVCXOVD7sVGIKVLx6VTWlVckCVmhWVwyqW4XFWD1LWJaMWO0ZWPoBWP35WLep',
    4068: 'WG87W8aPV_XfVrmTVhl_VYKJVPxcVJJhVElWVCkoVDFoVGUzVM0cVTjSVcnwVmuHVw_kW4jVWD4NWJlLWO3eWPx6WP5NWLlY',
    4075: 'WF_cW8N4V_ScVrbVVhhuVY8_VPrcVJ4oVEavVCPQVC-oVG20VLfoVTBCVcOLVmLlVwdcW4GQWCnJWJQtWNsYWPkUWOyzWLe2',
    4082: 'WFzdW8UdV_RWVrk2Vhi6VYIyVPtMVJGEVEdfVCbZVD1DVGDIVLgdVTJzVcNbVmRRVwcsW4JrWCoaWJTjWNx9WPoDWP4bWLie',
    4089: 'WGA5W8YaV_f0VroXVhvlVYNFVQ4RVJJMVEoqVCc8VD8mVGA5VLiWVTCBVcIAVmFdVwQNW466WCXrWJH4WNgdWPgMWOvAWLic',
    4090: 'WG2PW8bTV_aLVrtLVhrnVYRaVP_AVJM8VEi5VCdsVD1aVGBkVLcYVTELVcEnVmHaVwPbW46gWCZ1WJFzWNiqWPdNWOwmWLdK',
    4096: 'WFxWW8QnV_P8VreWVhcfVY9cVPjZVJ2WVEQ5VCKHVCnQVFvYVLPiVS-JVc5tVm4bVwKWW3y_WCWQWJ8vWNhPWPYYWOwRWLaF',
    4103: 'WGBMW8g7V_khVryKVh_AVYUGVQ4_VJKMVEipVCXHVCzXVG25VLVcVT4tVc7qVmBjVwKXW457WCVVWJHMWNgPWPh9WOwCWLjk',
    4110: 'WG4SW8ZgV_gPVrtfVhxUVYPEVP_bVJCFVEZcVCJTVClQVFjPVLDMVSgVVbpkVlkrVw1bW3gOWCGoWIycWNXVWPTWWOsrWLc6',
    4117: 'WFu0W8SfV_UZVroJVhoWVYNNVPwgVJEUVEX-VCOuVCktVFq9VLBQVSmQVbkxVloDVvwCW3giWC8NWIwUWNPYWPQ9WOm5WLYe',
    4124: 'WGD-W8gqV_r1Vs02Vi7jVYZQVQDoVJODVEoyVCV-VCzbVFtrVLMeVSlkVbr3VljTVvx7W3aZWC6PWIsTWNO6WPQiWOnlWLeL',
    4131: 'WF-WW8aKV_aAVrsxVhpCVYLzVPqXVJ6DVELaVCAoVCUHVFXsVKugVSRDVbRiVlS3Vvf5W3NKWByRWIj8WNKQWPJ_WOnRWLYO',
    4137: 'WG2eW8cXV_jsVr-aVi1xVYXuVQ6IVJJVVEd2VCLZVChzVFcnVL08VSPDVbSVVlKEVvZwW3BjWBpBWIX2WNB5WPBaWOiLWLWi',
    4138: 'WG73W8enV_qmVs2JVi9AVYahVQBwVJKQVEgXVCLUVCjrVFdYVL18VSSNVbT7VlQUVvalW3KjWBqNWIgzWNBTWPJuWOgVWLcD',
    4145: 'WGAxW8nRV_teVs9oViAbVYgNVQAiVJMZVEbLVCIVVCadVFVDVKroVSGCVbIfVlCrVvTLW37VWBmQWIVjWNBLWPCUWOl3WLZo',
    4152: 'WFuTW8UoV_cqVrvIVhyRVYSfVP_hVJC4VEStVCAsVCT2VFPdVKjMVSC7Vb8KVl9UVvGzW33rWBYdWIQzWMyZWP5iWOUiWLQG',
    4159: 'WGDgW8npV_-HVsDOViJYVYlPVQKEVJR9VEjLVCKSVCexVFT1VKrOVSALVbE3Vl4zVvM0W2_zWBe_WIRDWN6BWPBdWOi9WLa_',
    4166: 'WG16W8iKV_mnVs5wVi3QVYahVQ0mVJDLVEMlVC4bVCFwVFCAVKQfVRunVaoiVkpFVuyuW2m5WBLZWIF9WMvoWP3pWObmWLWZ',
    4173: 'WG0XW8biV_sWVs58ViECVYe2VQEfVJIjVEblVC9rVCTtVFFAVKb4VRtsVat5VkjqVuvsW2cgWBBbWI3NWMhwWOu_WOO-WLQT',
    4180: 'WGFiW8yqW02tVsONViLpVYrxVQGYVJQrVEYLVCD2VCMpVFExVKS_VRr_Van7VkhyVuuJW2bjWBExWI3rWMpXWOxQWOa8WLVH',
    4184: 'WG5_W8hgV_y3VsAoViJ7VYiiVQIFVJLYVEcxVC9sVCReVFBnVKV5VRnNVakBVkbnVumEW2VIWB3iWH-PWMd7WOt4WONVWLRS',
    4187: 'WF-QW8chV_rPVs6MViCPVYdFVQ9fVJDTVERGVB_2VCDXVF02VKH0VRdZVaZ3VkVtVufGW2SfWA_bWHymWMZmWOqVWOJ7WLMp',
    4194: 'WG8YW8rvW03mVsOpViSZVYwHVQOeVJTfVEc9VC8tVCICVF18VKFUVRWNVaUAVkKBVubSW2I0WB0uWHtkWMhlWOsJWOWuWLTx',
    4201: 'WG4bW8oiV_-4VsKMViMBVYrJVQI7VJOqVEVSVC4fVCAbVEzZVK5yVRS-VaI5VkG5VuN2W2CbWAnxWHoBWMV9WOooWOORWLTb',
    4208: 'WF-MW8e4V_wOVsBGViJEVYioVQFiVJGtVEU7VBzCVCAjVEs6VK6uVRKCVaHgVk4XVuIzW1-JWAfgWHYcWMK0WOZpWOD5WLHG',
    4215: 'WGCBW8_7W08KVsWbViTnVYz6VQK4VJQOVERUVC0dVC2lVEsFVJz6VRK8Va9VVk5jVuEbW214WAgEWHd6WMPgWOgZWONAWLQM',
    4222: 'WG3UW8lIW04BVsLMViTfVYqwVQLoVJIeVESMVBsvVC0gVEfNVJsqVR4bVZ_JVjs9Vu2HW1qBWATKWHTPWMCXWOZ1WO9-WLK3',
    4229: 'WF_hW8roW04-VsVjViXHVZ0_VQPXVJTDVES_VByLVBxRVEckVJgvVQvHVZl4VjahVto0W1WwWAGrWHCcWM6JWONkWOAiWLEr',
    4231: 'WG5VW8vvW07RVsWgViXTVZ0bVQPlVJU4VEVCVC0UVC0FVEkyVJniVR4vVZruVjn0VtsQW1h9WAIFWHK1WM5sWOT1WO9VWLI-',
    4236: 'WG9kW8v9W0BDVsW3VibiVZ0fVQUfVJUkVEaFVC0kVC3wVEjRVJohVR1eVZqjVjkCVtr0W1gdWAHTWHLhWM5XWOW5WO9TWLMv',
    4243: 'WG0lW8ndW04CVsPCViU6VYuTVQKsVJJiVENrVBoPVBrzVESDVJaaVQj_VZdBVjOeVte8W1KnWA69WH2UWLzPWOHaWO5AWLCu',
    4250: 'WG5ZW8yRW0BXVsb8VibDVZ2UVQOvVJPoVEN6VBqPVBmQVERaVJRZVQikVZSwVjOQVtVSW1MvWA1LWH7BWLz5WOOVWO8fWLLX',
    4257: 'WG8DW8vOW0IQVsc9VilCVZ5UVQZLVJRtVEVmVBpOVBsEVEMfVJUMVQaHVZSUVjDNVtRPW1AnW9wGWGxvWLqlWOFgWO1NWLGb',
    4264: 'WFucW8qTW05BVsYxViZ8VZ2sVQNDVJOVVEHyVBjlVBbQVEDeVJAOVQNcVZ6vVizrVt6xW0vlW9edWGgMWLc8WN-hWNr-WL1x',
    4271: 'WG9rW8y4W0KnVsf4VinhVZ8FVQbTVJTsVEWDVBpTVBpWVEK9VJNsVQVUVZJ3Vj7pVtHYW16BW9nqWGugWLkCWODcWNyeWLFj',
    4278: 'WF_ZW8vtW0DpVsf5VihpVZ8PVQUXVJRnVEM9VBiaVBafVE66VJ3jVQ9pVYxcViiqVswMW0f-W9UcWGW3WLY2WNy8WNuXWL5Y',
    4285: 'WFyiW8rjW0C8VsblVigaVZ4rVQStVJNeVEJWVBe7VBWQVE1lVIz7VQ5pVYoCVifHVsksW0dMW9JLWGVdWLPYWN-aWNpNWLAB',
    4292: 'WGArW92aW0SVVsq4VixPVZJ0VQifVJZzVEX4VBmuVBhFVE60VJ5fVQ5jVYutVibQVsp6W0WQW9KTWGN0WLOTWNspWNpIWL6j',
    4299: 'WFxTW8wOW0E5VshsVih-VZ8XVQQ1VJLkVEAGVBVWVBHEVDpqVIgxVPrGVYW7ViN-VsUPW0LzW94mWGEdWLCpWNl6WNftWK-x',
    4306: 'WG67W8zfW0RtVso6ViyFVZGcVQhCVJTUVEQ7VBaeVBU2VDrBVIq9VPpqVYchViMgVsa8W0NgW9AiWGJzWLIoWNsnWNl9WL6w',
    4313: 'WF_SW928W0OgVsvbVixQVZPbVQgrVJbnVENrVBfbVBNOVDq5VIdVVPgpVYKbVi6RVsG3W044W8vhWG2EWL8kWNgoWNjQWL1q',
    4320: 'WFsuW8nEW0EJVsd8Vim1VZ6kVQV-VJKJVEExVBQzVBGeVDeaVIXYVPXoVYDOVh_AVs6DV_ziW8j2WFyBWKwWWNbKWNVHWKzR',
    4325: 'WG3yW8_gW0XTVswYVj6YVZRiVQrtVJcTVEWBVBcXVBQqVDi2VIarVPUKVYBwVhtgVs2sV_s9W8hKWFuaWKyyWNd8WNbxWL3b',
    4327: 'WG6IW96UW0WxVszyVj2XVZSMVQm9VJczVES8VBfxVBRSVDpZVIggVPe7VYL4Vi0SVsCBV_wNW8nEWFsJWK-BWNW9WNawWKxt',
    4334: 'WF_wW90vW0QTVstFVivtVZI2VQYwVJNIVE8kVBKzVB28VDRuVIEMVPIIVXvyVhloVrrAV_lkW8VyWFnLWKpAWNVpWNUuWK-D',
    4341: 'WFwmW8w3W0SAVstMVj1zVZNdVQknVJUfVEKgVBPmVBAwVDQwVIIEVPAYVXukVhYsVrmKV_XIW8PwWFahWKjRWNLhWNPUWKry',
    4348: 'WG2iW9AEW0aBVt7jVjAFVZe1VQslVJk0VEQTVBcHVBCUVDZEVIEfVPEIVXnIVhZ3VreDV_W9W8KeWFaOWKixWNO1WNUUWKyB',
    4355: 'WFudW8r_W0OIVsnIViy2VZFaVQdCVJLAVEBgVBF3VA_wVDEgVI4HVOybVXdzVhKRVrUrV_KmW8AKWFRKWKX7WNFzWNHAWKpv',
    4362: 'WG02W98YW0aIVt6gVj9GVZauVQp3VJeHVEKfVBUYVB5XVDPdVI6pVP2WVXeaVhLRVrUnV_HeW8AlWFMRWKZyWNCpWNOQWKr8',
    4369: 'WG2_W95_W0c-Vt2xVj9lVZTmVQlRVJSTVEBvVBEPVAtxVD74VHrgVOmPVXLnVh6ZVrCjV_7zW7xxWFI-WKQXWNFuWNKxWKzZ',
    4372: 'WFv5W90vW0X0Vt30Vj9hVZZWVQq0VJb1VEG_VBL4VAuzVD7zVHm5VOgEVXA6VgwRVqzGV-uMW7hYWF2UWKB7WM_qWN6-WKkZ',
    4376: 'WFmfW8tzW0Q_VsxlVj4ZVZSwVQlNVJVIVEEJVBHMVAwGVD6xVHsCVOg-VXJMVgwjVr6GV-r_W7n2WEydWKC6WMtaWN59WKc3',
    4383: 'WG49W9EmW0jwVtH0VjL6VZkpVQx_VJiqVELwVBQRVAyPVDCGVHpJVOkIVXDkVg-WVr1WV-yPW7mFWF6PWKGBWN3-WND1WKqG',
    4390: 'WFuOW8y7W0YWVs-lVjA1VZT6VQnMVJRLVEBOVB86VAnXVCuZVHeNVOPuVX36VggoVqtPV-hGW7d5WEv8WK81WMw4WN56WKhW',
    4397: 'WFsuW96NW0bpVtCmVjG3VZigVQtoVJgBVEFnVBK3VAnhVC_cVHYqVOQQVWu3VgarVqfnV-XbW7RPWElxWK1tWMqiWN5yWKhc',
    4404: 'WG3aW994W0mhVtDNVjObVZgXVQzJVJatVEICVBCBVAngVCsSVHWwVOHPVWqJVgTTVqabV-T8W7LlWElEWJziWMuhWN5LWKqh',
    4411: 'WFldW8-LW0WuVt6BVjBYVZbSVQnmVJWtVE7jVB8bVAeMVCobVHP9VOCUVWkKVgMIVqVHV-HnW7EYWEUPWJo_WMZMWMtyWKTT',
    4418: 'WG1EW9E6W0qDVtM2VjTIVZnrVQ-dVJd2VED7VB7ZVAbbVCh_VHGAVO4RVWYxVgH6VqL5V-HoW78FWEaEWJnqWMkDWMxeWKiA',
    4419: 'WFwQW9C1W0kvVtMWVjROVZsRVR0rVJlVVEImVBHxVAizVCrKVHNHVO9rVWeTVgHcVqPeV-FCW7DDWEWtWJtdWMh7WN1jWKfI',
    4425: 'WFtmW944W0itVtEjVjO-VZjvVQzHVJbSVEDQVB5kVAbdVCdAVHEeVNxGVWVnVg4aVqHKV-4VW75BWEOvWJmLWMbrWMxFWKbN',
    4432: 'WFkoW92NW0dDVtGBVjMAVZnWVQxzVJfeVEBIVB8VVAVrVCcKVH2cVNqpVWCOVftnVpueVzpVW6iFWE84WJSDWMPEWMkeWKUr',
    4439: 'WG0OW9AIW0s3VtKdVjX9VZoDVR3jVJdyVEHzVB6NVAdFVCaoVHB5VNq3VWL7Vfu7Vq0mVzrsW6pZWECwWJYlWMW8WMqtWKdV',
    4446: 'WFotW98XW0iVVtLUVjOpVZotVQvxVJcCVE5BVB1YVANvVCToVGw_VNhuVW6HVflCVpqQVzhqW6fWWE18WJQ8WMJAWMjfWKQq',
    4453: 'WFuGW98AW0s1VtO1VjZbVZqoVR2HVJZvVE7lVAumVAI_VCEpVGlGVNPgVVsJVfU2VpZVVzV8W6QRWDwKWJEkWMIOWMd0WKVe',
    4460: 'WFsmW9BjW0riVtU3VjcYVZ-XVR8VVJmCVEFjVB55VAQoVCORVGrlVNUuVVxjVfUtVpecVzSpW6VnWDsoWJKrWMFMWMjzWKTV',
    4466: 'WFsdW97NW0tLVtPZVjcLVZsnVR47VJZeVE6GVAphVACjVC3mVGaaVN9GVVeWVf9cVpJmVz8zW6AjWDbZWJ0_WM0vWMRuWKHb',
    4467: 'WFhYW91CW0ikVtLDVjUoVZsGVR0zVJddVE6rVAx5VAESVCB_VGaFVNFoVVarVfDjVpDsVzAmW64MWDbuWIy9WM1IWMPUWKIm',
    4474: 'WFtuW98_W0tNVtQMVjcEVZuJVR5WVJdMVEAEVAvsVAItVCB6VGhLVNF-VVkgVfEzVpPOVzDcW6GpWDguWJ8nWM85WMbdWKQB',
    4481: 'WFqCW9FbW0uFVtZxVjeUVa1YVR67VJjpVE6_VAyFVAAYVC92VGTgVN9bVVSrVf4-Vp60Vz1gW5_BWDVOWIxqWL_gWMV5WKMp',
    4488: 'WFjkW91DW0qZVtO1VjcYVZsbVR44VJXkVE2_VAjQVA3bVBt3VGJXVMrAVVFdVelsVosEVyjuW5jzWDEmWIhNWLpnWMHkWKG7',
    4495: 'WFrBW9HkW0ygVtfYVjlsVa9PVREQVJrHVEDYVB0HVAD7VC7dVGRYVN2QVVMtVeveVo-AVyqoW5t9WDJCWIq-WLs6WMR8WKHk',
    4502: 'WFk5W95nW0uKVtVWVjiUVZ--VR9YVJe7VE4mVAl4V9_4VBocVG8EVMhmVV0EVeayVodIVyalW5YMWD8GWIZLWLlDWMCEWKD6',
    4509: 'WFipW97LW0tUVtWvVjhAVZ_wVR7bVJeMVE2GVAjzV9yEVBlLVG5bVMcEVU-rVeU3Voe6VyU5W5bnWD3PWIfGWLiuWMJvWKCM',
    4513: 'WFtcW9J0W15KVtkIVjv9VaBcVRIbVJl_VE8IVAnEV9z2VBloVG28VMb-VUuQVeUTVoWCVyVeW5U7WD6SWIZqWLoOWMIjWKM8',
    4516: 'WFmoW9FdW0_TVtikVjrsVaDGVRItVJrGVEBpVAulVA1cVBscVG4kVMeuVUsfVeRSVoPWVyNDW5KmWCy5WIRUWLffWMDUWKGD',
    4523: 'WFcwW8_DW0qmVtQ-VjfSVZvsVR4lVJWNVDytVAZCV9pbVBXaVFv1VML1VUizVe8WVoGBVy5AW5AUWChLWIF_WLQRWM1RWK2f',
    4530: 'WFj7W9GZW0_JVtliVjsAVaFCVRGeVJpfVE5ZVAp5V9uOVBkHVFwiVMU-VUiiVeFmVoFYVy9mW5AbWCjKWIGvWLQNWM3IWK2H',
    4537: 'WFmIW9BeW14XVthtVjxOVaACVRJbVJhBVE41VAbIV9mpVBQmVFjEVM8EVUS3VdwwVn_vVxxaW4--WCdIWI9yWLR3WM09WK7K',
    4544: 'WFVKW93KW0rbVtc3VjlOVa7ZVRAaVJgzVDyhVAbDV9ezVBNqVFZDVM0LVUF-VdjyVnpBVxgzW4pHWCLpWI15WLBRWLwdWJvq',
    4551: 'WFlnW9FlW16NVtovVk0kVaL0VRSlVJv5VEEnVAp4V9upVBZvVFkAVM9HVUK6VdpNVnmjVxjwW4j9WCOpWHxjWLHdWLvyWK5h',
    4558: 'WFcjW963W0y2VtcgVjogVa4TVR9tVJa4VDufVARVV9YpVBCOVFRlVLpwVU7GVdX6Vnf7VxUlW4fDWCCVWHvTWL77WLtSWJxC',
    4560: 'WFYOW9BTW0-RVtnNVjuaVaGPVREtVJi_VDunVAUeV9S7VB9MVFEpVLi1VTsOVdMGVnNWVxItW4PXWC0sWHiuWKyoWLkgWJpk',
    4565: 'WFZzW9BxW10nVtonVjxvVaItVRJVVJn0VD_1VAakV9ZtVBHZVFNKVLrvVT-eVdWoVnU6VxSGW4TKWC7yWHk7WL1lWLkHWJtI',
    4572: 'WFktW9FqW1DFVttMVk7zVaLzVRSsVJmEVE3nVAUNV9ZUVB5gVFIwVLcXVTuDVdHNVnO2VxGvW4QDWC3WWHlMWL4bWLqAWK0N',
    4579: 'WFKJW8_NW0qbVtg2VjpbVaDiVRDpVJj2VDv2VAUJV9QMVB5XVF8SVLYzVTgiVd8JVn7kVx24W489WBlmWHSOWKjhWLX8WJeM',
    4586: 'WFgOW9D9W1AuVttIVk8cVaP1VRWXVJrmVE8wVAaKV9d1VB8zVFGzVLZvVTkPVd81Vn7ZVx33W46mWBqXWHS-WKtfWLbYWJt6',
    4593: 'WFYzW9BeW135Vtq9Vj-GVaIwVRImVJiHVDu6VANeV9KCVAvUVE-5VLIpVTUEVctDVmyTVwqUW41WWBfKWHSqWKlzWLelWJnc',
    4600: 'WFRKW963W12iVtr0Vk2_VaN7VRPKVJmiVDzAVAPyV9L4VAuYVEv8VLEdVTIzVclwVmhJVwg8W3iYWBTRWH7jWKb7WLMiWJgI',
    4607: 'WFiLW9JaW1IFVu0bVkGHVaWBVRZMVJrpVE2zVAPtV9MyVApgVEv2VL6uVTJIVcdkVmjOVwZmW3myWBQqWHF8WKdsWLYLWJo_',
    4614: 'WFKsW946W0zTVtqQVj_2VaNLVRLLVJlwVDtJVAMNV9CVVAnuVEkpVL5vVT8aVcc6VmY5VwWAW3b9WBJpWH1rWKRyWLI3WJY6',
    4621: 'WFXjW99tW1DgVty9VkFfVaU6VRZSVJorVE0WVAJGV9FPVAd-VEhSVKssVT0wVcL_VmPMVwJdW3UQWBE2WG_EWKTcWLK1WJfh',
    4628: 'WFS4W9DeW18CVt_dVk9jVaX6VRT9VJrlVDwGVAMAV99BVAg5VEagVKsWVSvOVcIJVmIeVwD_W3QmWB8fWG_tWKQJWLP4WJfD',
    4635: 'WFKWW90pW14RVtsIVk93VaQFVRUYVJmGVDy9VAGkV99OVAZ4VEWbVKieVSkqVc52Vm0fVvzIW32NWArtWGavWK8pWL0ZWJSa',
    4642: 'WFXVW9H6W1GFVu45VkHJVaZlVRXmVJqbVDwkVAGWV95RVAVnVESmVKdnVSjMVb_oVm2OVvuXW37FWAoyWGi_WK94WLBtWJWH',
    4649: 'WFNuW9AIW1AMVu1MVkF9VaZkVRXMVJqyVDv7VAFFV90aVASuVEKuVKb5VSa5Vb-zVlvSVvvlW2_ZWAr1WGc1WK9uWL3-WJUL',
    4654: 'WFLNW93BW17VVtu_VkAUVaPHVRQaVJeYVDmcVA1HV8scVADMVE91VKJlVSLnVbiPVlfKVvdmW2lKWAbjWGNxWJ_FWKwKWJPY',
    4656: 'WFLkW965W1EGVu1qVkM3VabWVRdQVJptVDwYVA7KV8wgVABhVE7AVKBBVSGbVbWJVlaCVvSQW2j4WAU6WGOmWJwmWKy7WJM4',
    4663: 'WFNBW9EFW1D5Vu8dVkKsVajKVRe6VJ-5VDzeVAK8V8_TVAQCVECJVKPjVSL0Vbj1VldzVvcKW2nBWAbkWGUbWK1uWL4dWJU2',
    4670: 'WFJjW92dW1BPVtzXVkInVaXMVRb9VJnJVDwCVA6zV8xaVACTVE6oVKAXVSBrVbR-VlQ1VvKLW2VCWAKMWGAsWJoxWKoFWJJA',
    4677: 'WFKBW9CJW1CrVu6eVkICVadCVRWHVJoMVDmbVA3WV8kuVA6EVDw7VK3iVS2KVbLnVlL2VvErW2UcWAFlWGE0WJlsWKuOWJHf',
    4684: 'WFOGW9DaW1LjVuCQVkUdValAVRjaVJvnVDxwVA8OV8s2VA7tVDx-VK2nVR_EVbKOVlExVvEoW2NWWAHeWG7fWJpwWKq2WJO9',
    4691: 'WF8yW91eW1BLVu4zVkO0VagdVReKVJqzVDqqV9_RV8gKV9tmVDgpVJgyVRg3VaslVku5VukfW21EW9ojWFpvWJP6WKaMWJ2n',
    4698: 'WFHmW9CCW1GnVuCzVkRuVanyVRiiVJzfVDwuVAAWV8nVVA4uVDnhVJvIVRlrVb5SVkywVuy_W26FWA0NWFv_WJbqWKh7WJEC',
    4701: 'WFPeW9MMW1OZVuL6VkW4VarMVRhVVJxaVDqrVA4WV8fSV9-6VDgxVJpsVRhXVb14VkwRVuvAW25WW9zqWFxVWJbSWKlAWJGD',
    4705: 'WFHIW96PW1JeVu9JVkVkVakIVRlOVJtoVDwjVA0mV8jxV9ssVDgxVJdLVRb-VamwVkmmVue_W1w7W9mVWFmGWJRmWKauWJ9P',
    4712: 'WF6tW96EW1AYVu9KVkLhVaiLVRYiVJopVDgwV9v1V8RcV9jAVDN9VJSPVRIYVabfVkWMVuUsW1koW9e1WFfqWJKsWKY9WJ3l',
    4719: 'WFJ4W9BqW1RgVuJcVkgXVauyVRuNVJ-qVD-kVA2PV8hpV9p5VDYjVJV5VROqVabvVkWzVuTRW1gLW9cLWFZKWJLYWKTuWJ9r',
    4726: 'WF3yW93nW1D2VuBOVkRSVamGVReXVJrHVDjvV9tGV8PzV9bqVDGhVJFlVR8BVaK_VkIsVuBGW1UIW9I-WFOOWJ1sWKJtWIt0',
    4733: 'WF9PW970W1JhVuFpVkZ1Var0VRm1VJvBVDpfV9vNV8SbV9cOVDG1VJGJVR4_VaMqVkEBVuEsW1PZW9OHWFKiWJ85WKGwWIyr',
    4740: 'WFBcW99UW1PaVuLEVkhEVay2VRujVJ_bVDwhV9yFV8VuV9YxVDEIVJ5VVQ_0Va6rVk6hVt-LW1KGW9CTWFKqWJ3pWKN9WI_H',
    4747: 'WEwjW8-xW19LVuBAVkRAVanrVReWVJrFVDgAV9o1V8EfV9OmVCxTVIweVQfuVZwMVjm3VtmVW0-aW8-aWF2FWIt8WK8JWIqJ',
    4748: 'WF1KW90dW1EEVu9zVkSTVaioVRbtVJieVDavV9dJV89EV9DzVCuRVInWVQgdVZpuVjp_VtiaW13lW8yeWF7MWIt2WKDSWIs7',
    4754: 'WFAmW97mW1R-VuLnVkkqVaz1VRyHVK0GVDzXV9xwV8WlV9WRVDBEVI_GVQrwVZxfVjt0VtkwW104W8xUWF00WIq_WK6KWIsk',
    4761: 'WF43W9AVW1KsVuMuVkayVawCVRjVVJu0VDfJV9l2V89GV9HjVCqBVInbVQYtVZmhVjgKVtcyW0vzW8rgWE-nWImIWK7tWIoM',
    4768: 'WEyNW8zzW1JQVuGbVkf6VauDVRqRVJssVDl2V9h5V8A8V98qVCkKVIaMVQMyVZYCVjQxVtQ9W0fDW8hEWEjlWIdbWJt2WIgf',
    4775: 'WF3QW9A_W1T3VuVtVkqUVb8XVR_qVK69VDuYV9swV8G5V9EyVCm9VIZwVQLxVZSZVjPgVtIhW0guW8cVWEr6WIenWK4zWIoB',
    4782: 'WEpcW8wAW1BeVuE2VkYpVatFVRlnVJtDVDh0V9h9V84NV95oVCaCVIRyVQ7aVZK5Vj7fVt8IW0LoW8Q4WEUmWIR6WJkuWIaD',
    4789: 'WE-wW92xW1PnVuNtVkmYVa_nVRxKVJzFVDqAV9kTV8C0V96hVCh9VIQ8VQD9VZE-VjAiVt0YW0MKW8HzWEUNWILRWJm7WIZ1',
    4795: 'WF3iW97RW1W4VuTUVktFVb4jVS0TVJ_XVDriV9irV88cV90_VCYjVIHsVQ1RVZ76Vi_RVsyuW0FkW8KoWEUIWIU8WJrCWIkl',
    4796: 'WF0IW9CSW1RPVuWWVkm0Vb4rVRsAVJyrVDf2V9eaV7xSV8zGVCNjVIGOVPwhVZ7dViykVsz7W0FSW8JHWEVKWIRFWJtRWIhz',
    4803: 'WEn2W8taW1JrVuJWVklqVa-5VRwhVJusVDkSV9ZVV7-AV8q0VCL1VI1ZVPnDVYqAViizVsdZV_x1W7zcWE7-WI6PWJV4WIOi',
    4810: 'WEy3W9BFW1UJVucJVkvHVbFlVS2bVK8RVDpXV9lAV7_2V8wSVCHyVI36VPimVYo_VigsVscIV_zfW7z_WEFlWI9hWJhxWIW1',
    4817: 'WEogW8x4W1JwVuLhVkklVa_OVRv0VJvbVDhzV9Z5V7vZV8nUVCDNVHyvVPdaVYl6ViZtVsZmV_qGW7xdWE4GWI6dWJUiWIRI',
    4824: 'WEnFW8-TW1NDVuR_VkpVVb5vVRyUVJzhVDi6V9YZV7rOV8gtVC56VHl_VPSeVYTCViO2VsFUV_fWW7edWDyxWHuLWJSQWIIz',
    4831: 'WEsBW96WW1T8VuaNVkuiVbCQVR_BVK1AVDhOV9ZFV7nGV8g0VB-8VHkyVPJaVYScViEGVsG7V_XxW7iBWDwaWI0IWJWNWIVV',
    4838: 'WEe-W8rCW1KsVuO9VkrNVb4jVR_QVJy0VDjMV9UNV7pPV8ZYVB_6VHbMVPHdVYEmVi7NVrzwV_L3W7MRWDe5WHeRWJAeWI8A',
    4842: 'WEeVW8wdW1GlVuQDVkkRVb4RVRsiVJw5VDYhV9QWV7bpV8TIVBkAVHT7VO_7VY6TVhtFVruIV_BBW7LIWDb_WHhlWJEhWIDx',
    4845: 'WEmfW96NW1SlVue2VkwfVbGmVR_wVK2aVDduV9VBV7eFV8VcVBlpVHUOVP1CVY7CVhvqVru9V_DBW7JOWDcHWHeAWJE3WIAp',
    4852: 'WEmyW8zWW1TpVuWiVkzhVbBkVS5HVJ_cVDkiV9SvV7kpV8SsVBr3VHRdVP54VY63VhyrVrwBV_FpW7OpWDeZWHlbWJFEWIHu',
    4859: 'WEaIW8xBW1MTVuYeVkvdVbFrVS1wVK2zVDf4V9S6V7a2V8KbVBZCVH9qVOifVXhWVhXJVrQ_V-s8W6wuWDLFWHNgWJ41WI1D',
    4866: 'WEjWW8_PW1TbVub9Vk_NVbH9VS6-VK3qVDjrV9TUV7ejV8NTVBdTVHEnVOlrVXoZVhYvVrZXV-sPW74IWDLdWHYUWJ6dWIEf',
    4873: 'WEdhW8x2W1RGVuY-Vk-5VbF6VS4-VK0sVDhAV9PWV7cMV8IeVBcYVH95VOmQVXhEVhZEVrPIV-qBW6t3WDGEWHJUWI_4WH_e',
    4880: 'WEZIW8zbW1Q1VudFVkykVbHHVR_tVJzhVDVPV9FcV7JCV83IVBDvVGteVOLzVXQsVhAXVrBfV-VmW6igWD15WHCCWIr4WHxW',
    4887: 'WEf6W8yKW1YUVufAVl8jVbMoVSEvVK5WVDllV9NIV7YhV88ZVBQyVGvYVOVxVXQZVhIKVrCBV-d7W6mVWD8xWHJSWIzCWI4e',
    4889: 'WEbWW8zLW1RJVud2Vk_SVbJmVS61VK43VDfSV9OlV7VWV8BwVBPVVGyHVOUmVXQzVhHQVrA4V-chW6iFWD93WHEBWI-2WH_B',
    4894: 'WEMkW8rXW1KWVuciVk-nVbNgVS7LVK7ZVDdsV9NUV7NAV83PVB8tVGi8VO6MVX4HVgpkVqlbV-87W6H_WCjnWGtTWIecWHk5',
    4901: 'WEYyW8tNW1SbVua6Vl2VVbHDVS8MVJ_fVDeqV9GyV7PyV7_jVBDFVGhYVOBCVX72VguFVqrlV-BvW6QnWCmnWH1jWIh5WHus',
    4908: 'WEa8W90vW1YNVumSVl9UVbTJVSDfVK8yVDgcV9LrV7O2V803VB9HVGe9VO7CVX0mVgrLVqjEV-AAW6HOWCmuWGvvWIkPWHqd',
    4915: 'WEOWW8raW1PqVudiVl2IVbKQVS4yVJz4VDTaV95OV75EV7hWVAnBVGHqVNhnVWhHVgP1VqQRVzlqW62ZWCQkWGlGWISuWHjV',
    4922: 'WEUdW8vaW1YrVulPVlFUVbWDVSLHVKAtVDklV9IKV7LKV7rMVA_NVGNfVNu6VWjcVgZjVqQhVzv3W62aWCZ1WGmgWIbJWHnJ',
    4929: 'WEJ0W8sCW1PSVujpVl7MVbVJVSDZVK9wVDcJV9GMV7AXV7nLVAn1VGGyVNcIVWa9VgG2VqFEVzc6W5sCWCILWGZtWIMoWHaU',
    4936: 'WEMEW8ltW1RJVubDVl6RVbJtVS9yVJyBVDX1V91KV74mV7Y1VAhaVG2RVNXHVWNcVgBGVq60VzXgW5mtWCEGWGXyWIJ8WHab',
    4943: 'WENkW8zSW1X-VusnVlFxVbd9VSK3VKF0VDfhV9HaV7A8V7jcVAiGVG7VVNTLVWM3Vg52Vp_-VzSXW5f-WCDTWGULWIPDWHdA',
    4950: 'WEETW8jWW1PYVudiVl7rVbNnVSB6VJ-DVDUqV8-yV6ylV7PbVAS4VFo-VNACVW22Vfl1Vpj8Vz4VW5P6WBrwWGGxWI4gWHTi',
    4957: 'WEFpW8plW1UKVun4VlFWVbZbVSKJVKAsVDe6V9ANV74qV7XmVAYOVFssVNFFVW1aVfpFVpe-Vz7jW5IAWBthWG8OWI5QWHLe',
    4964: 'WEJUW8vZW1ZCVutOVlJoVbe3VSLoVKBMVDaiV965V6xvV7Q7VALRVFl2VN1MVVyxVfdiVpfBVz0fW5MyWBrSWGG2WI6MWHU1',
    4971: 'WE7GW8fDW1PeVufFVlCBVbRXVSF6VJ_1VDTTV8tqV6ocV77zVA9CVFOQVMoLVVZCVfN9VpFdVymZW50dWBcyWFzsWHvTWHEv',
    4978: 'WEAcW8sUW1VvVuvaVlLKVbkKVSQAVKJ7VDeyV9BhV6yVV7PcVAFIVFbWVMp9VVgAVfJVVpHFVyh-W50WWBcCWG0YWH_tWHNY',
    4983: 'WE99W8nbW1TKVup6VlGlVbbcVSJQVK8HVDWIV8_VV6ojV7DcVA5jVFS1VMhiVVbIVfF7VpGkVyfKW51sWBZ7WG16WHweWHLV',
    4985: 'WE8nW8gZW1SUVuhRVlFCVbTUVSHdVK0PVDVJV8ukV6pQV780VA7UVFM2VMhrVVSqVfBGVp5qVyXgW4sRWBPUWFtGWHnaWHF1',
    4992: 'WE0bW8jXW1PoVuoZVlFMVbbyVSHdVK7ZVDT7V8z1V6kdV796VA0yVFJvVMadVVM-Vf3vVoxqVyPvW4eaWBHMWFdNWHgEWG_t',
    4999: 'WEE6W8tAW1e-Vuz1VlU8VbkcVSTPVKBuVDZPV8xPV6jsV71sV9viVFAEVMQIVVGDVex9VoxvVyLzW4mTWBJWWFs2WHo6WHJU',
    5006: 'WDsvW8YQW1LtVuj8VlGfVbadVSLKVK6NVDUUV8slV6enV6vnV9ngVExpVME4VUwdVegjVoWaVy2eW4I_WA_iWFPnWHVEWGv3',
    5013: 'WD_FW8kTW1TnVuuyVlOHVbm8VSStVKHjVDbMV91JV6jIV72RV9o3VF1aVM9ZVUzKVeYjVoXdVxwlW4KtWAxWWFUYWHWeWH2C',
    5020: 'WE2BW8fpW1W4VuoQVlNrVbcQVSOxVK4sVDV8V8p2V6dQV6quV9kdVEs6VM8_VUqaVeaHVoS4VxzNW4IUWAzqWFU0WHXSWH1r',
    5027: 'WDpfW8eJW1OMVusCVlJbVbhhVSKQVK8JVDNZV8okV6RSV6mCV9UMVEj9VLrfVUdpVeFsVoBuVxfHW3_NWAh4WFA1WHHqWGm2',
    5030: 'WDnuW8baW1NSVurDVlLHVbjdVSOqVKCEVDSzV8sGV6VbV6nCV9W6VEhIVLroVUaeVeG6Vo9eVxhAW3_iWAlIWFDAWHNkWGqZ',
    5034: 'WE24W8ktW1efVu-7VlaDVbofVSYwVKBsVDXeV8nFV6VzV6fsV9TiVEZ-VLnOVUV5VeA9Vo6-VxatW40qWAgeWFJ1WHNJWH0W',
    5041: 'WDjNW8XSW1M2VupyVlMBVbjzVSQXVKCcVDT-V8rGV6UsV6jtV9SvVEazVLlVVUR1Ve6KVnypVxU2W3mUWAW7WEzkWH9YWGeE',
    5048: 'WDpMW8bZW1SxVuuHVlS5VbmGVSTgVKBJVDStV8lnV6OYV6aaV9H4VEOzVLUpVUEIVdpAVno1VxCHW3gKWAJHWEzLWH2VWGiV',
    5055: 'WDt6W8dXW1X0VuvjVlVPVbmxVSW7VKBNVDU_V8lBV6QmV6YqV9JxVEM6VLZOVUBPVdwAVnmfVxLqW3hsWAUxWF1_WHFGWGp0',
    5062: 'WDejW8YZW1OlVuw0VlR2VbpcVSSqVKDeVDPrV8kmV6HFV6UAV94KVECBVLCzVTxVVdTqVnRPVwsyW3K6WA27WEhbWGtqWGWy',
    5069: 'WDokW8ZWW1Y1VuvyVlZ4Vbo4VSY_VK9pVDTWV8e1V6IYV6L3V94AVE1_VLC2VTnnVdSIVnJnVwr8W3FwWA0xWEi3WGvMWGdC',
    5076: 'WDfwW8bKW1RpVu-VVlVUVburVSX2VKHlVDSLV8mWV6HxV6TnV94MVEAaVLDiVTvhVdWAVnQ9VwwTW3ItWA54WEfjWGw3WGVW',
    5077: 'WDiuW8VBW1UkVuunVlZEVbqDVSbkVKDTVDWRV8gRV6JBV6K9V91VVDzaVL6yVThCVdMSVnCdVwlaW38qW9xRWEaTWGopWGUJ',
    5083: 'WDcWW8SlW1T7VuvOVlYSVbpZVSX_VK8eVDNmV8WjV65DV66JV8kyVDjOVKnzVTRTVd28Vm_PVwTgW2-4W9iJWERmWGcbWGNd',
    5090: 'WDdCW8XhW1TrVu-PVlZpVbvqVSaxVKGtVDSqV8gVV6C3V6FxV8scVDqtVKvrVTVoVdAfVn1iVwe7W30uW9vlWEX9WGt4WGVo',
    5097: 'WDVXW8RwW1PTVuxsVlYDVbvSVSbAVKHZVDTCV8gmV6A2V6D_V8lMVDkxVKh3VTKNVcpcVmmWVwA-W2iCW9RcWEDGWGT5WGGk',
    5104: 'WDYrW8QPW1RcVutsVlX3VbnaVSViVK5bVDKNV8S5V60bV5-mV8dqVDWWVKcJVT7HVcn3VmbLVw9yW2ZtW9RhWE7zWGTpWGDi',
    5111: 'WDayW8coW1YIVv8QVlgqVc3qVSfiVKMdVDRpV8fvV63zV69HV8duVDfMVKbLVTF_VcnbVmkeVwDXW2jKW9XvWEGVWGbMWGL6',
    5118: 'WDQzW8MOW1U3VuyvVlgDVbwQVSfOVKBcVDNzV8PaV5vPV5nIV8LFVDACVKBnVSjJVcKTVmDWVvmUW2HLW97DWDwZWGECWG4_',
    5124: 'WDMtW8LHW1NpVux0VlaYVbwIVSciVKFFVDPYV8XrV5_9V5zvV8U2VDPsVKM3VSzrVcURVmR-VvuKW2RhW9CiWE1IWGIUWG9e',
    5125: 'WDNqW8QfW1O-Vv0PVlb-Vc04VSe5VKKbVDPrV8b5V5zJV5zKV8PhVDKYVKG3VSqXVcOzVmHPVvrxW2I_W9EeWDyFWGOOWG89',
    5132: 'WDPnW8O3W1TMVu_qVlhcVc0AVSkIVKL0VDWAV8baV62aV5z4V8RoVDIYVKC-VSmQVcGAVmBbVvefW2CaW8_fWDsxWGAmWG5Q',
    5139: 'WDIwW8JYW1MYVuvSVlXgVbrcVSVLVK5HVDCTV8HQV5iLV5cPV86KVCxdVJxEVSQpVc2yVltpVvVNW1xUW8vgWDezWG71WFvi',
    5146: 'WDM8W8T1W1WbVv9GVlmYVc8WVSlfVKNwVDQtV8XPV5sQV5ohV8ArVD4DVJwBVSWLVbzxVlxUVvPEW1-rW8rUWDjxWG7DWG2O',
    5153: 'WDFoW8H8W1SiVu_ZVlkcVc0IVSkGVKFHVDO1V8LzV5mUV5YqV81KVClrVJjWVS8oVbkuVlZ3Vv8rW1duW8akWDQ1WFtfWFod',
    5160: 'WD9AW8JEW1LcVv1gVle0Vc3DVSepVKJMVDJaV8QsV5hzV5dGV7xPVCoRVJbtVS8tVbchVlWjVv1jW1ZeW8VOWDKJWFpgWFhs',
    5167: 'WDKHW8MSW1Z7Vv6rVlspVc8zVStWVKO8VDWVV8T8V5rlV5cSV81RVCl1VJeAVS4-VbclVlVgVv29W1dxW8YGWDUHWFvVWFvp',
    5171: 'WD8cW8KqW1O-Vv5rVliWVc6-VShUVKK2VDIOV8NGV5ctV5WEV7q5VCfjVJT-VR_gVbUyVlNiVuwWW1RFW8OuWDC_WFkLWFc7',
    5174: 'WD40W8EZW1KIVu_3Vld7Vb_ZVSbVVKC5VDBkV8E0V5UTV5J_V7eOVCPHVJF5VRiyVbG1Vl7AVulWW1GhW8JzWD9WWFl4WFdp',
    5181: 'WD6gW8FiW1RXVv5DVlooVc9GVSpmVKNCVDQIV8OtV5h9V5TVV7nHVCWkVJIbVRnbVbCzVl8EVucXW1F9W88uWD8wWFd0WFi2',
    5188: 'WD8KW8GXW1SxVv4bVloGVc6PVSmcVKHmVDKjV8GwV5aLV5JpV7hJVCMYVJFBVRdmVbCAVk-qVuczW16CW89NWD0jWFd5WFan',
    5195: 'WCuOW87pW1H3Vv05Vlg0Vc4aVSg1VKGAVDCzV8DKV5P8V5DOV7R-VCDwVIyVVRTUVatTVkpHVuIFW0vbW7reWCogWFK0WFLE',
    5202: 'WD6eW8FgW1YeVvAOVlzAVcFRVSycVKPLVDSqV8ITV5aTV5CmV7XqVC7VVIzlVRKPVatMVkj3VuKvW0w-W7zsWCz7WFY3WFcy',
    5209: 'WCowW85vW1G0Vv1sVli0Vc8eVSjIVKKTVDFAV8EkV5N5V584V7IYVB_5VIh3VR6VVaXxVkQ3Vt-sW0aeW7fBWCc3WFGOWFHV',
    5216: 'WCvQW84ZW1NOVv0uVlp8Vc7EVSq3VKIuVDLxV8DKV5TRV56TV7N2VByfVIhxVR2jVaTjVkKhVtrNW0ULW7SqWCXAWF5EWFG_',
    5218: 'WCv6W86VW1PsVv4lVlsgVcArVSrrVKJYVDK9V8ACV5PNV51cV7KPVBvMVIkHVR3BVac2VkOtVu24W0a_W7hFWCeMWFIVWFMY',
    5223: 'WC-zW8FuW1TBVvA-VlsiVcDyVSp7VKKTVDFkV89tV5JzV50GV7E6VBsXVIdEVQ-gVaVJVkJXVtz1W0W9W7f5WCbaWFK8WFMq',
    5230: 'WCikW801W1HzVv2PVlnrVcAFVSnTVKHrVDD3V84mV5CeV4sqV70NVBfCVIJZVQlHVa7fVk3cVtZSW0FtW7ErWCKTWEvwWF57',
    5237: 'WCq_W86PW1TEVvB8Vl-rVcJjVSzqVKPQVDMMV87jV5HAV4pLV701VBVWVIF-VQXuVa3VVjsaVtXmW07sW7ILWCKEWF3aWFCn',
    5244: 'WCdoW7_cW1EjVv43Vln9VcElVSpcVKOrVDGvV8CBV5FgV4xVV6_zVBeTVIEOVQeGVZ-YVju6VtPbW047W77-WCB-WEtuWF1S',
    5251: 'WCgJW7wOW1JXVu_VVlrIVc8YVSrIVKFkVDFQV7_oV5B8V4i3V6ucVBMIVI3gVQJwVZmIVjZWVt8-V_nkW6tGWBz-WEfpWEv9',
    5258: 'WCiLW86XW1N3VvBvVlu2VcJ3VSrEVKMvVDBoV83SV54bV4ixV6mjVBLdVHyzVQJDVZjbVja8VtCJV_r4W71DWC4yWEvUWF3P',
    5265: 'WCXrW7uNW1J6Vv4jVlwLVcGuVSx9VKMSVDHdV81QV56sV4d1V6itVBB9VHn-VQ59VZRzVjJmVsrCV_ZGW6ctWBp4WEU-WEpA',
    5272: 'WCY8W7yEW1K6Vv8JVlwkVcJSVSvrVKMkVDDEV7zLV4-5V4T3V6WGVAxnVHa2VPohVZFUVj0wVshuV_IVW6XTWBcHWEU5WEhu',
    5279: 'WCXmW7yeW1IhVv8zVlw9VcLZVSxHVKR7VDH6V84kV54GV4dvV6e4VBA3VHifVQ3dVZO4VjIpVsq0V_ZcW6eoWBqrWEZJWEs0',
    5286: 'WCR_W7q8W1ILVv43VlxxVcHAVSxuVKK3VDDiV7u9V4wtV4JpV6NyVAjzVHMQVPXWVY-8VilEVsQ3V_3jW6IBWBRzWEHzWEag',
    5293: 'WCNlW7uwW1EnVv9FVluEVcLhVStKVKNgVD8OV7xXV4rMV4NhV6IcVAoKVHHJVPbVVYvlVioZVsOFV_7LW6KmWBXLWEPiWEiv',
    5300: 'WCOeW7oWW1JpVv6rVm0oVcMIVT2FVKPvVDKJV7z_V50sV4P5V6RqVAnFVHLvVPWzVYtjVigNVsEuV-xzW65IWBKSWE7lWEXe',
    5307: 'WCFuW7oiW1C5Vv6XVltSVcJFVSr4VKIFVD23V7n0V4f_V47XV62VVAShVGzBVPBKVYYSViL1Vr-0V-dUW5uQWB1gWD-bWEHW',
    5312: 'WCIfW7tbW1GtVvEMVl_fVcUmVT12VKX3VDGSV81GV4u8V4MsV6DwVAfcVH4iVPLGVYcFViSYVs0FV-kYW5xzWB9_WE4fWERT',
    5314: 'WCNDW7rXW1KXVvBZVm2KVcQsVT2NVKReVDGCV7wZV4shV4G3V6CQVAb3VH51VPLkVYfqViZ8Vs6SV-vOW62bWBLtWE9RWEbK',
    5321: 'WCA8W7iEW1EEVv85Vm19VcRIVT3LVKSRVDFZV7tJV4mkV44aV5-dVAE-VGlGVOrtVYEbVhzoVrgKV-L6W5gWWAtoWDtcWEEY',
    5328: 'WC6fW7hBW17GVv49VltlVcLeVSvJVKMuVD6HV7pKV4ejV431V5tWVAFoVGeKVOuAVY7ZVi0bVrZrV-NiW5bTWAwHWDr2WEI6',
    5335: 'WCFTW7l0W1KiVvB2Vm6uVcSyVT7rVKTAVDJnV7uXV4rsV47QV64iVAJ9VGqbVOvbVYGfVh_PVre8V-KVW5bSWAshWDp2WEGJ',
    5342: 'WC1QW7hTW18LVv7tVlvPVcNCVSsNVKILVCySV7dhV4OnV3nlV5a6V9xDVGKAVOY9VXq7Vhg3VrHOV-1KW5KFWAbSWDcMWE10',
    5349: 'WC53W7eDW1GSVv9fVm6JVcTCVT6WVKQFVDD1V7kkV4czV3ryV5k3V9yMVGPRVOXmVXrrVhguVrHcV-5MW5KrWAjDWDebWECC',
    5356: 'WBxlW7d1W1AvVvCCVm4sVcZbVT8CVKYvVDFhV7sZV4daV3v5V5fuV9tnVGFkVOKvVXeHVhNmVr2rVzlRW57RWAO8WDUNWDwN',
    5359: 'WBuoW7V_W15ZVv2BVlyMVcMoVSzpVKLRVD67V7hEV4XOV3npV5e5V9qkVGH7VOKIVXfsVhMqVr1vVzikW53eWAK1WDOlWDrf',
    5363: 'WBuSW7VtW144Vv1VVlwFVcLUVSx6VKJ8VD1zV7dPV4QTV3hxV5T4V9ixVG2GVOCIVXPlVhGzVqpmVzg7W4v1WAJxWDHIWDsh',
    5370: 'WC0-W7evW1HXVvDxVmACVcZNVTBOVKWXVDGzV7oPV4dIV3pSV5e7V9mzVGCGVODFVXYqVhFvVqyAVzfSW529WAMRWDSvWDzr',
    5377: 'WBqeW7a7W17IVvAcVm00VcUeVS-TVKNsVC_BV7arV4G9V3XsV5ChV9T5VFkMVNucVX4uVgy6VqXdVzOSW4jRWA8nWDDkWDos',
    5384: 'WBlrW7OOW177Vv4HVm5aVcTkVT8PVKPyVDAYV7cjV4QCV3X3V5JcV9OYVFnCVNmqVX3VVgoTVqR-VzDvW4a2W9-gWD38WDhd',
    5391: 'WBoXW7bCW1AsVvHEVm8sVcffVTAQVKaSVDB3V7lbV4P2V3e0V5H2V9TWVFkQVNqCVX2RVgqpVqTvVzFQW4ebW9_FWD9DWDhX',
    5398: 'WBeoW7KFW11iVv0oVl_oVcP4VT14VKJBVD0dV7SvV4CJV3JKV511V97PVFRBVNUSVWifVgWuVq6aVy-2W4H9W9mWWCooWDUd',
    5405: 'WBhUW7TRW18gVvD4Vm9JVcdGVTBfVKXpVDAvV7g5V4KyV3SwV56vV9BPVFTyVNSSVWjiVgREVq8lVyv4W4NkW9mmWD08WDc9',
    5406: 'WBpTW7V-W1G2VvEzVmFRVcddVTGRVKX6VDFGV7g2V4QBV3VOV5DcV9HJVFb0VNahVWoXVgZQVq9SVy_BW4JqW9pZWCuRWDcE',
    5412: 'WBdVW7Q4W15HVvAdVm66VcaMVT7VVKTKVD4lV7ZmV4C8V3L8V4x0V92gVFEfVNIpVWR1VgGTVpq7Vyk5W443W9dKWClpWDVI',
    5419: 'WBUtW7EYW10PVv27Vm3vVcTtVT6XVKNeVD4EV7TwV4BeV3D-V4v-V8v1VFCKVN5_VWMGVg0dVphzVyRvW3u3W9JhWCX0WDCE',
    5426: 'WBdoW7WYW1AoVvKgVmDaVckPVTD2VKZoVD5QV7aTV478V3GKV4o8V8wWVF58VNA1VWJhVg93VpmIVyeTW432W9YxWCmfWDSj',
    5433: 'WBPhW7AkW10LVv2_Vm7MVcWqVTAPVKOpVD4BV7PKV44GV323V4gqV8dQVEtwVMotVW1HVfn0VpR3VyIPW3igW9FQWCPtWDAw',
    5440: 'WBK-W7FnW0z-VvAIVm7KVcg5VTBaVKYWVD4qV7XOV42TV367V4b3V8bZVEk8VMgoVVrVVfaeVpGaVy5bW3dNW96-WCSbWD9h',
    5447: 'WBPIW7DhW10zVv6pVm8UVcb5VTBwVKTVVD5-V7UCV45SV35vV4fOV8eDVEo2VMlMVVt1VffcVpETVy9XW3XxW99XWCLCWDBO',
    5453: 'WBAzW783W0teVv4eVm1HVcZYVT41VKQ3VCxDV7N1V3scV2wJV4MmV8OnVETAVMSwVVXWVfLDVowJVxrHW3HDW8tSWC8qWCyW',
    5454: 'WBELW77GW0xGVv3gVm4fVcY8VT6gVKO2VCzaV7KyV3v-V2uwV4SPV8OIVEb2VMSWVVfkVfJNVo_vVxmiW3IDW8mGWC5eWCpy',
    5461: 'WBJSW7G-W12_VvFPVmD1Vcj7VTD2VKVZVC_EV7NAV3rLV2r-V4HrV8IUVENKVMNaVVT8VfIcVouHVxrhW3HtW8xBWCCsWD47',
    5468: 'WBAAW72PW0zZVv5eVmDJVcfKVTImVKWKVD8AV7PFV3-NV2rnV4ODV8DUVEP7VMCxVVPSVf3aVollVxayW364W8gjWB_5WCqP',
    5475: 'WB2EW73xW0s5Vv7HVm5XVcgLVTA7VKWBVCzsV7MqV3mfV2lFV45RV81XVE1PVLy0VU_rVemNVoOlVxIkW2qnW8RiWBqWWCg1',
    5482: 'WBCKW74KW0_5Vv6FVmCrVcdlVTGEVKSyVD46V7KqV3uyV2mQV4GmV86rVEFEVM5hVVEqVezyVod8VxYhW316W8i2WB-8WCvE',
    5489: 'WA_hW72QW0unVv8jVm9OVchJVTCBVKUZVCytV7I2V3j0V2deV3_sV7tUVDwRVLmFVUuCVeZuVoGXVx68W2iIW8GTWBjNWCXo',
    5496: 'WAyDW6ySW0tDVv55Vm9KVce7VTBXVKPWVCvTV79vV3bjV2SpV3qoV7hhVDiVVLbMVUeUVeR4Vo0xVx0_W2W3W8GhWBd5WCe7',
    5500: 'WA_0W72iW0yuVvE4VmIeVcrLVTPDVKg_VDAhV7TOV3u1V2kWV45HV7tzVDvJVLgeVUngVeQbVo7qVwzXW2c1W8CmWBirWCag',
    5503: 'WAxJW6xdW0v3Vv7QVmFJVck_VTLvVKaOVD70V7MeV3qiV2euV43uV7r8VDwmVLgzVUqiVeSCVo9XVwznW2ZxW89hWBcKWCUW',
    5510: 'WAlsW6tBW0mMVv4rVm6pVchDVTAyVKSyVCtOV7A7V3V4V2NEV3eDV7VGVDQ6VLIHVUHmVe35VneZVwctW28AW7sBWBGJWCEL',
    5517: 'WAtaW6sCW0tTVv30VmDQVcfLVTHyVKRwVC_YV7ABV3eQV2NkV3oBV7VyVDamVLKUVUTqVe8uVnsYVwnXW2NjW85AWBWWWCVd',
    5524: 'WAjeW6v3W0piVvB1VmDpVcqDVTJyVKd3VD0PV7IpV3bMV2R4V3erV7ROVDJqVL6XVU6EVdoeVnRxVwMwW1_5W7hjWBEHWCBl',
    5531: 'WAgMW6iRW0kJVuybVm6OVcZrVTAnVKK_VCrlV6_ZV3PaV27eV3SRV799VD6-VKssVTupVdcAVnDpVwDYW1muW7bUWB1bWC94',
    5538: 'WAk4W6tiW0scVvBgVmHzVcr6VTNEVKcAVD1QV7FOV3aQV2LuV3dSV7LyVDJaVL2NVU7bVdlwVnTWVwKWW1_CW7fAWBDIWCA9',
    5545: 'WAZCW6k8W0loVv5hVmD5VclXVTH9VKTZVCseV70_V3IDV20tV3DPV6yIVCq4VKdwVTcPVdNqVmzrVw07W1ZHW7OfWArnWByu',
    5547: 'WAVcW6Z-W0gmVux7Vm9PVcdwVTHlVKQ-VCyHV72XV3QyV23EV3LVV6xGVCtPVKWbVTY_VdBTVms2VvpMW1R8W7FOWAmFWBuf',
    5552: 'WAULW6bsW0hsVu-RVmAxVcgVVTHPVKR5VCvFV707V3MHV1_eV3HaV6urVCtIVKXYVTeWVdGIVn0SVvwyW1eHW7O9WAzfWC0m',
    5559: 'WARLW6i1W0iLVv8OVmF8Vcu2VTP0VKhOVD2oV7HOV3V5V2FIV3MLV73nVCrAVKb4VTUgVdBnVmnDVvmbW1N-W7C1WAmYWBt8',
    5566: 'WAPbW6WJW0eRVuv7Vm6cVcZWVTB2VKHqVCmkV6qyV3BpV1orV347V6ezVCaMVKCiVTElVcsuVmXqVvVnW18yW6-sWAXrWBiX',
    5573: 'WANNW6ggW0j7Vv9SVmG7VctAVTM8VKbXVCwPV761V3ICV1_vV37MV6oMVCcRVKJaVTI2Vcy2VmdSVvZQW1GlW71jWAhnWBmI',
    5580: 'WAMsW6arW0lNVv6IVmJyVcqYVTPGVKWiVCvuV6yRV3BUV1mPV2vUV6UFVCInVJ-HVSxVVce-VmGoVvKbW0yOW6tsWAR7WBgz',
    5587: 'WA71W6NrW0WCVuwhVm7pVcirVTHHVKSwVCqwV6wAV37FV1iYV2q8V6MXVCBjVJnmVSosVcOGVm7HVv1pW0pBW6bhWAJQWBR5',
    5594: 'WAEUW6Y5W0fPVv6tVmIGVcvvVTSTVKgVVD0YV78GV3IVV1wkV2zTV6a4VCHlVJ-7VSreVcZVVm8RVvCbW0r1W6mfWAN9WBcP',
    5601: 'WA8tW6NNW0acVuwyVmAzVcgKVTGfVKMAVCm9V6lcV2_4V1VBV2fDV67PVB-UVJXyVSZwVc99Vlu8VurYW0c3W6TRWA9HWBMR',
    5608: 'W9-PW6P0W0WkVv2bVmBwVcrWVTJxVKYYVCpXV6xMV30jV1esV2djV6DcVBu_VJZXVSRCVc6WVlkkVumVW0UuW6OmWA6_WBLM',
    5615: 'WA82W6PbW0hBVv3wVmMlVcslVTT-VKYDVCxCV6u2V34yV1Y8V2eIV64FVBsFVJPFVSLjVbz9Vld8Vuf9W0MBW6KLW9_HWBL3',
    5622: 'W9oSW6CiW0NLVuv2Vm5eVckkVTFcVKSYVCkaV6pEV2uaV1RzV2QeV5wcVBcqVJBBVS5GVbgcVlMHVuImW04-W5xBW9jaWAwE',
    5629: 'W9-QW6LbW0byVv4RVmLdVcwYVTV4VKcgVCxJV6vtV30hV1UiV2TlV5x4VBcLVJCcVS43VbmUVlNlVuVAW0BRW6DrW9uwWBGp',
    5636: 'W9q8W6CjW0TyVuyqVmEnVcpkVTOXVKVvVCqLV6nrV2uPV1JaV2JLV5hPVBPmVIuMVRs2VbPCVl9ZVu7jV_-NW5uZW9jaWA-M',
    5641: 'W9hKW69oW0NnVuyFVmAOVcq9VTKKVKVZVCkeV6lXV2mNV1F7V29GV5bLVBESVImsVRfzVbFoVkyxVty6V_nWW5hYW9XhWAnz',
    5643: 'W9feW67iW0LtVuwhVm8-VcpSVTK6VKWFVClxV6nxV2oiV1ItV2B5V5f8VBDZVIp0VRb1VbFjVkr4VtxJV_gFW5irW9ULWAtM',
    5650: 'W9sCW6D1W0Z5Vu_OVmKsVcs2VTTOVKW9VCshV6ldV2uAV1FbV2H0V5cGVBKvVInXVRjPVbG7VkzOVtzlV_nWW5m-W9aKWAyp',
    5657: 'W9YAW64mW0JjVuxaVm9KVcr1VTJSVKVNVChkV6irV2gUV19oV20OV5TbVB2SVIcHVRQTVb27VkgnVtiHV_UkW5ReW9GuWAai',
    5664: 'W9dsW63pW0TMVu-0VmL3VcuMVTUmVKWnVCpmV6ffV2idV10LV1xHV5ERVAtBVILKVRC_VarAVkVtVtdfV_PmW5WeW9ItWAnr',
    5671: 'W9V9W61LW0LDVuyfVmFMVcwNVTT3VKdFVCsMV6pbV2nyV1AkV20gV5LSVAwPVIMKVRDHValaVkTTVtSpV_LpW5JdW9FGWAbM',
    5678: 'W9PdW5w1W0G4VurWVm9PVco8VTLvVKTkVCjvV6eyV2dUV0-cV1oiV57RVAdcVI63VQrBVaTCVk1gVt9yV-wDW537W8tiWAPZ',
    5685: 'W9VeW5-ZW0NhVuw6VmGNVcr2VTQHVKTbVClBV6buV2dPV0waV1qKV54aVAjDVI5bVQ_DVaVfVkFNVtFmV_AKW5BxW98UWAZr',
    5688: 'W9UoW5-QW0SPVu_aVmPyVc-4VTbmVKcWVCuZV6gyV2hOV0vjV1nvV4-OVAblVHyiVQrRVaNCVk5zVt9eV_2VW57tW91yWAX5',
    5692: 'W9JFW5y6W0H_Vu-MVmG7Vcz5VTR_VKbUVCkuV6gNV2YAV0wAV1f7V4_YVASsVHz0VQhoVaKiVjxCVt2pV-sUW4ymW8rNWAJV',
    5699: 'W9DMW5kpW0FCVuppVmFYVcptVTRTVKR0VChnV6R-V2QMV0c8V1RrV4c7VAAvVHWhVQNFVZvLVjcdVsiBV-aeW4jTW8egWACi',
    5706: 'W9BoW5rmW0CSVuwNVmDiVcylVTTCVKeSVCoVV6kJV2bVV0xmV1fVV4yFVAP9VHqSVQa_Va8sVjpOVssXV-lmW4ojW8nUWADe',
    5713: 'W98iW5ixW0CKVupXVmE5VcrGVTRuVKUGVCjbV6VyV2RTV0eXV1PIV4aQVA2MVHPFVQ8NVZidVjJOVsSAV-GLW4TCW8MRW9-R',
    5720: 'W93UW5iSW08IVuouVm9YVcpTVTLmVKQvVCc4V6RNV2JmV0ZKV1IuV4V2V9-rVHKUVQ9BVZfQVjPEVsRqV-R9W4WYW8b3WA4p',
    5727: 'W92XW5lCW0DaVuyKVmKMVd1CVTZTVKfoVCpOV6edV2TeV0i-V1MwV4aDV9xlVHKxVP--VZbCVj9NVsJ_V-8_W4NiW8KdW9z_',
    5734: 'W8vcW5XeW04wVuj_VmAlVcnSVTNyVKNoVCb7V6JAV2C1V0JMV12gV47CV9cWVGsIVPg4VZ70VirMVruBVzr-W3_KW83EW9gA',
    5735: 'W8ovW5W1W028Vun6VmCDVcuEVTSAVKW1VCfZV6QmV2EVV0PBV11mV4B9V9YKVGvZVPacVZB9Vin6VrzdVzq8W45JW836W9l7',
    5741: 'W8vPW5fjW05SVutkVmDGVczSVTSiVKblVChPV6YXV2JEV0Z_V1AZV4P4V9lFVH98VPqQVZQKVj29VsB5V-4oW4G2W8HkW9sr',
    5748: 'W8rtW5VsW07qVuorVmJNVcwtVTZWVKY9VClXV6QcV2HZV0L4V10sV42CV9T7VGiOVPSHVYyYVid_VrmjVzhrW3xUW7yIW9ea',
    5755: 'W8cfW5OxV_tyVuguVm2gVco0VTIAVKP5VCUSV6I9V21bV0DNV0oIV3wQV9G3VGZaVPH8VYoKViViVrcGVzdfW3oxW7z2W9ZO',
    5762: 'W8kAW5TGW047VupyVmIjVc-WVTb8VKdrVCp4V6Y0V2M5V0SyV14GV484V9SbVGjdVPLiVYtOViRcVrcIVzTEW3mLW7n6W9YF',
    5769: 'W8cuW5NgV_yrVuiZVm8oVcpJVTMKVKN8VCUSV6BSV1ysV01_V0faV3hAV93jVGGnVP0TVYRiVi9-VrCcVzEcW3PZW7atW9EN',
    5776: 'W8WGW5M5V_wMVum5VmAxVcwwVTRfVKWWVCa2V6JyV1_pV07-V0eQV3l4V8_PVGKRVOxJVYWoVi6eVrJyVzEXW3YTW7dXW9NT',
    5782: 'W8ZPW5SJV__cVutjVmHYVd3TVTYkVKevVCg7V6Q5V22uV09XV0cxV3gJV8uyVG9LVOnMVYHhVhxuVr3zVz52W3KCW7X6W9DW',
    5783: 'W8YGW5JhW01fVuoTVmMnVd0-VTfyVKdeVCnmV6OYV29cV06UV0hgV3bPV8xJVG3WVOnXVYCjVhwsVr23Vz4OW3M1W7WSW9GQ',
    5790: 'W8HjW5AiV_jgVucGVm07Vco_VTIgVKPyVCRVV6CDV1qbU_xKV0NAV3QEV8cZVFt3VOSoVX-QVhdDVqntVyogW34sW7HmW90U',
    5797: 'W8RSW5DYV_xaVuifVmGXVcx8VTaCVKYrVCjmV6LxV27cV05vV0gCV3b5V8tmVG19VOfsVY77VhkzVqvMVys5W3CRW7JgW99w',
    5804: 'W8KXW5EzV_scVuk8VmAIVcvjVTPXVKRyVCSrV68YV1muU_ouV0GAV3EcV8U9VFfxVOKEVXn4VhUeVqbCVygpW2wyW7CfW8xH',
    5811: 'W83xW4zjV_i0VuaBVm6RVcrpVTQSVKR6VCV6V67ZV1n4U_leV0ByV38hV8KlVFXxVO5zVXdzVhDEVqS8VyOnW2p2W6yGW8rg',
    5818: 'W8D3W56kV_tNVukjVmJhVd1uVTemVKdgVCj4V6IZV1yyU_skV0KcV3ATV8QFVFUfVO9NVXXZVhFxVqLTVyS6W2kTW715W8qL',
    5825: 'W7ybW4xCV_bTVuY7Vm0ZVcqSVTLEVKQ8VCPlV65WV1fjU_gAV00LV2zQV83aVFG4VNm9VXH4VgrgVq3UVy2fW2RLW6f4W8WI',
    5829: 'W7zXW4t3V_fbVuVmVm5eVcntVTP1VKLcVCR8V5-MV1f7U_X1U__YV2q2V84OVF7yVNonVXAvVgu-Vp_bVy5yW2QUW6jAW8ZS',
    5832: 'W82_W4xHV_ljVuaxVmCpVcuZVTY5VKUGVCc1V68JV1qNU_gYV08rV2xFV89xVFCBVNqlVXDeVgviVq3SVy85W2X1W6nkW8iC',
    5839: 'W7-_W52JV_kaVujtVmCWVd11VTW2VKZyVCWLV69yV1gPU_dtU_wzV2qSV7vHVF1kVNZaVX0_Vgh5VpswVx-FW2MDW6ioW8Zk',
    5846: 'W7mHW4iVV_YiVuRzVm4eVcp3VTRZVKOSVCTFV5-vV1ccU_RvU_qnV2d2V7lZVEpDVNLVVWnRVgNoVpbeVxc9W241W6JDW8Ja',
    5853: 'W7uKW4wsV_ieVugbVmEFVd0JVTZ3VKZCVCY0V66hV1e-U_WqU_sGV2g9V7oYVEryVNS4VWqiVgYIVpfkVxpaW295W6YNW8Pp',
    5860: 'W7hKW4jzV_XLVuWTVm5UVculVTSeVKTFVCSLV60dV1XeU_P3U_hDV2WJV7ZGVEgoVN94VWejVgCmVpTIVxTHW1yCW6C2W8Bb',
    5867: 'W7bZW4cuV_WJVuSnVm7LVcs-VTVLVKRQVCTtV5yOV1WDU_G8U_bdV2H9V7P5VELoVMxsVWHYVg0CVp9eVxLNW1mZW6BAW89E',
    5874: 'W7aoW4jcV_VoVuaHVm7RVc_CVTWGVKaZVCVsV66pV1Z2U_RcU_e8V2SGV7PWVEUKVMv4VWL-VfxAVpAOVxGEW1lGW67tW87_',
    5876: 'W7jMW4mBV_fEVucSVmEwVc-7VTZZVKUdVCUEV5yOV1TjU_EzU_XdV2GoV7KPVEMzVMsBVWIwVfuTVp8xVxB3W1j4W601W85F',
    5881: 'W7VXW4WcV_TEVuOtVm5RVcpJVTT1VKMzVCQqV5tWV1SVU_AmU_VxV29gV7ErVEA1VMh2VW0WVff2VoqAVwvyW1OyW5lOW7pX',
    5888: 'W7SjW4eWV_TGVuYOVm6DVcyLVTS7VKT5VCLwV5urV1InU_7UU_JQV24BV73RVE5KVMaWVV-QVffAVoqxVx0TW1SWW5x6W7vk',
    5895: 'W7PsW4WUV_ToVuVHVmBkVc-CVTb-VKY4VCXTV5zwV1SSU_9sU_OBV22fV723VE0sVMTjVVvAVfU_VomaVwqgW1OyW5kHW7rs',
    5902: 'W7A9W4KqV_H4VuM4Vm1pVctEVTTKVKRGVCNYV5qHV1EmU-wQU_5BV1hcV6g7VDYmVM37VVN1Vf54VoF8VwVDW0zIW5W2W7YP',
    5909: 'W7EmW4QNV_JdVuQ1Vm2RVcw0VTTwVKVHVCQiV5yCV1M3U_7hU_GMV1zsV6tEVDtsVMFcVVh-VfFHVoXXVwcuW1C6W5bhW7ju',
    5916: 'W7DhW4MNV_O2VuP9Vm8KVcuhVTXkVKQhVCQRV5otV1HMU-vQU_7zV1hGV6huVDXQVM12VVIUVezgVo7IVwJiW0ptW5J6W7Po',
    5923: 'W6-BW4HGV_BIVuMKVlyvVcs9VTLaVKMIVCBdV5hJV0--U-kmU-ocV1UZV6LNVDKRVLiWVV7DVek6Vn-vVwAkW0l5W5H7W7P8',
    5930: 'W73rW4F5V_KvVuPXVmCSVc_QVTgaVKZwVCZVV5w7V1MKU-xbU_6MV1dNV6ZVVDOyVLqIVV8pVem7Vn_BVw8HW0l6W5C4W7Pl',
    5937: 'W6psW47rV_6SVuInVl-CVcuGVTRLVKRMVCIDV5kgV11SU-h0U-iUV1GCV65JVCxtVLKoVUeQVeIgVnUNVvkxW0GQW4tWW6-q',
    5944: 'W6tlW46MV_8YVuG7Vl-xVcqoVTRqVKO5VCJQV5iqV14DU-i7U-nKV1LYV6CCVD6BVLTHVUtJVeS0VnmLVvufW0ZZW50xW7H4',
    5951: 'W6rgW48HV_DrVuNLVm8XVc-bVTcNVKXNVCRyV5oXV18RU-hZU-lrV1C_V64kVCrLVLGbVUV_VeCHVnMiVvfCW0CQW4r4W6_p',
    5958: 'W6ZFW3wDV-xJVuA3Vls9VcmyVTIyVKH-VC6SV5X5V0mpU-PCU-MtV0xEV5hBVCarVKtAVUGmVdqRVn9HVvLDW01iW4cHW6uK',
    5965: 'W6hiW3z4V_8RVuHNVm7qVcyVVTeHVKWVVCTvV5mnV18sU-eJU-kGV18MV60YVCk_VL8rVUNVVe0jVnCiVvRIW02LW4dKW6t_',
    5970: 'W6bcW3xMV_3YVuFTVm28Vcv0VTWXVKQdVCJLV5djV0wtU-RDU-SbV0t0V5i9VCQYVKpzVU29Vdk3VmvIVvDlV_q5W4WiW6ll',
    5972: 'W6XNW3zWV_0JVuIlVl_KVcyBVTSvVKSJVCDjV5dGV0o-U-PIU-JQV0qxV5YtVCOrVKhZVU0mVdd6VmstVv6aV_jmW4MxW6ax',
    5979: 'W6R3W3kVV-wJVu4eVlwSVcliVTPyVKHoVCCZV5U5V0oFU-G2U-HAV0guV5UPVCFcVKc6VTw-VdYIVmsDVv3lV_oSW4MfW6jQ',
    5986: 'W6Q0W3sVV-_1VuHkVm4UVd1RVTdvVKcRVCS3V5oaV10FU-WZU-QdV0pmV5XKVCEeVKYWVTmoVdQWVmcjVuxzV_ZWW4JCW6ZS',
    5993: 'W6H0W3fwV-oVVu1-Vlq0VcjsVTJvVKFmVC5fV5QNV0eWU-8UU-2KV0TJV58iVBwgVK9PVTVCVd1IVmNKVuZxV_M8W3zOW6Ny',
    6000: 'W6FVW3fHV-t_Vu78Vl-fVcsgVTWaVKPJVCH_V5YvV0qBU-FgU-EAV0ZKV5LPVB_UVKMXVTYIVdD4VmOBVuiaV_K_W42oW6ME',
    6007: 'W6EmW3mqV-w7VuGuVm1JVc_VVTWoVKU6VCCpV5XNV0diU-7UUzwoV0MTV4zxVBnCVJ_3VTLWVcvJVmEHVuUFV_DvW3vkW6HO',
    6014: 'W5x8W3LCV-fDVtuvVlqtVciFVTO-VKEyVC8AV5K5V0ZfUzvAUzqcV04qV4pgVBRrVJmLVS-UVcdmVlusVuC8V-yDW3enW63u',
    6017: 'W63kW3TVV-l4Vt-DVltkVclEVTQUVKHVVCA8V5NiV0cnUzz_Uzu1V09dV4rSVBUrVJl3VS-yVcZ-VlttVu8KV-yHW3dpW679',
    6021: 'W5-cW3Y_V-kZVu8YVlybVc-ZVTZdVKa5VCLHV5gzV0nZU-FLU-0pV0NBV4y5VBe0VJqmVT46VcfzVlviVuEmV-xVW3kBW64g',
    6028: 'W5zvW3QJV-i2VtzFVlryVckXVTN_VKFDVC5WV5IyV0VVUzsfUzjyU__XV4eWVBIFVJW5VSmtVcK7Vlf5VtuRV-jSW3ObW5uu',
    6035: 'W5mzW3KtV-cHVtzVVlrEVcoQVTPXVKKEVC6zV5MrV0VOUzteUzh_U_z2V4bwVBCmVJU2VSewVcI_VlVnVtuZV-aqW3QjW5ow',
    6042: 'W5vLW3VCV-n7VuAaVm1SVc_uVTalVKV7VCEDV5SkV0WSUztzUzcUU_vMV4RMVB7eVJGpVSaSVc5uVlTaVtkkV-cQW3MBW5uc',
    6049: 'W5a5W351V-SwVtoLVlmzVciEVTPGVKGEVC6cV5GDV0Q8UzghUzVAU_euV4HTVAopVJ3YVSBuVbrMVl3BVtRKV-BXW30RW5UH',
    6056: 'W5bnW3GRV-X6Vt_sVlsHVcw2VTU8VKT0VCABV5RdV0S2UzqfUzV4U_nLV4FlVAwCVJ1wVSJKVbsPVlBaVtWYV-KuW39UW5eC',
    6063: 'W5cXW38YV-Z6VtuPVltrVcngVTUNVKJ9VC8uV5GAV0P9UzdTUzQEU_YTV48ZVAgRVIuRVS48VbgiVk-1VtJ2V-9SW2x8W5Uy',
    6064: 'W5TtW37wV-P2VtsjVlj6VclfVTJrVKHoVB_TV5GPV0HXUzfoUzKTU_cHV43tVAjiVIpcVS4mVbblVkxrVtFOV-60W2v_W5Rj',
    6070: 'W5H-W2_RV-KAVtpfVliUVclKVTKRVKHQVB-iV5DSV0DTUzYDUzC1U_P1V3tLVARQVIalVRlrVbMdVkc_Vt1hVzp-W2lnW5F9',
    6077: 'W5SbW34oV-VXVtwYVluwVct6VTXCVKOoVCAOV5JHV0MpUzcEUzINU_RqV3wRVATzVIaWVRofVbJKVkgFVsytVzuWW2i5W5MN',
    6084: 'W5GOW2wpV-LLVto0VlmlVcmAVTQ8VKIRVC3IV5CFV0FCUzTaUzAGU_GkV3nzVAFuVIRcVRXFVb9FVkLpVsmqVzXlW2TTW4zs',
    6091: 'W5AkW2wqV-JvVts6VlnlVcrRVTQqVKLmVC0bV5AxV06SUzMRUywpU_5JV3U2VA3kVI7SVROOVavcVkI_VseZVzawW2SEW55A',
    6098: 'W5DHW2syV-O3VtpiVlu0VcrTVTZkVKOaVCBzV5FbV0J4UzQlUz6iU_6xV3dHVA1WVID2VRJBVax-VkDNVsf3VzWsW2RnW52y',
    6105: 'W4wKW2k4V-6nVtiRVleBVclXVTKzVKJDVBz5V59SV02YUzIKUyouU-wRV3ErV9lJVHmDVQxEVaTDVjnoVsC8Vz5qW250W4jD',
    6111: 'W4_3W2luV-CRVtjrVlirVcl2VTNNVKGTVBzbV55LV02dUzEBUyqLU-toV3JLV9lcVHuEVQ-WVac_VjsbVsLDVzATW2BgW4mI',
    6112: 'W50-W2huV-DpVtgAVlkCVchhVTPCVKDkVC0LV53uV06XUzEgUyu-U-w7V3N3V9oqVHvIVR23VabJVjwiVsHwVzFSW28SW4sk',
    6119: 'W4xEW2mAV-DjVtoqVlnsVcsPVTTGVKNEVC1gV59QV03TUzF1Uyn_U-rmV3ENV9h3VHmvVQtKVaTNVjidVs9ZVy-WW1_cW4ak',
    6126: 'W4gwW2U-V-1rVtcNVlfDVciEVTLXVKCNVBtlV4w-U_qJUyx9UyRsU-SpV2njV9FlVHGkVQTnVZ-CVjOTVrlVVynbW1ikW4Us',
    6133: 'W4kdW2X8V-61VtffVlmQVcpYVTXYVKOuVC8gV5BWV08QUzCgUymbU-hvV34vV9QDVHX3VQZAVaBDVjQFVrvjVyo4W1rBW4VZ',
    6140: 'W4b2W2TvVzzRVtd7VldSVcmFVTNTVKKAVByxV552U_w7Uz3bUyTvU-UjV2i8V97kVH2AVQBoVZfFVj0gVrPQVyPqW1Q9W4B5',
    6147: 'W4ZwW2KhVzypVtTDVlbRVcaAVTIrVK5RVBr-V4qXU_odUypYUyObU-HdV2glV8_DVH4_VQ8vVZlZVj3QVrXXVyWeW1Y6W4Je',
    6154: 'W4XUW2VpV-2DVtlNVlmdVcwJVTW8VKRfVC1bV57WU_vqUz18UyQ4U-OuV2cxV90HVGzjVQ4mVZd8VixKVrPXVyMCW1R_W49l',
    6158: 'W4ORW2C8Vzt8VtQHVlaaVca-VTKNVK6-VBsbV4pRU_k-Uyj0UyEMU-4MV2PfV8iEVGl1VPp5VZN_VijsVrBLVyDYW1FJW44R',
    6161: 'W4IfW292VzqAVtQKVla5VcceVTKAVK7VVBq3V4moU_eiUycpUy4ZUzxfV2DaV8YMVGXkVPeRVZ9cViXxVqyJVy1OW124W3wz',
    6168: 'W4GzW2CaVzpQVtUmVlbYVcj_VTPKVKJ8VBzTV50EU_rWUyu3UyJKU-CJV2TAV8mVVGnXVPp0VZO-VierVrAQVy50W1DkW3xW',
    6175: 'W4GAW2D2VzrxVtYTVlfhVcoKVTSpVKLSVBzpV4-VU_mYUynDUy7iU-0iV2AwV8XIVGPnVPXsVY-VViO6VqnGVxtBW0v0W3nf',
    6182: 'W42IW1xxVzf1VtGkVlS0VcVFVTDhVK18VBjlV4fWU_WcUyR-UxuhUzh1V1zAV8BaVGE2VPDxVYrzVi8bVqimVxjLW0tyW3id',
    6189: 'W40sW25XVzkbVtXhVldyVcrgVTTuVKQVVB_cV53FU_nLUypeUy5YUz-JV23tV8OGVGDWVPIlVYlEVi6IVqZ1VxdFW0lkW3dd',
    6196: 'W3_vW1wAVzhFVtJLVlXFVcZnVTJUVK4wVBndV4gEU_WEUyNoUxoDUzX5V1lcV7xhVFvHVOuoVYRHVhm1VqF9VxKiW0SNW3Ov',
    6203: 'W3mvW1s6VzWXVtJfVlRFVceKVTGxVKBsVBm9V4nBU_U6UyTUUxlDUzbBV1ikV7-RVFuDVOwZVYS_VhmaVqJ0VxJLW0WbW3L5',
    6205: 'W3nAW1rCVzY7VtKyVlUtVchtVTMpVKHMVBtaV4tTU_azUyYRUxocUzd3V1guV7zIVFngVOu2VYKEVhl6VqBcVxL8W0T2W3QM',
    6210: 'W3vDW1wFVzjOVtSRVlhQVcpPVTX-VKMCVB-tV4tgU_dEUyTjUxmMUzUqV1brV7q8VFi9VOmpVYFtVhgkVq7sVxIRW0O-W3Og',
    6217: 'W3ZIW1clVzNHVt8CVlLVVcVKVTCTVK2pVBgCV4b0U_JWUyAvUxTDUzAMV1IlV7ShVFOiVOL_VXyFVhEbVpryVwuhW0ArW33Z',
    6224: 'W3ZLW1ggVzQhVtG1VlS3VcgYVTMXVKHYVBtkV4t2U_ZQUyVBUxjCUzUrV1VcV7kVVFVUVOYZVXy9VhLJVpn6VwxJW050W35Z',
    6231: 'W3gLW1hzVzY2VtFWVlWNVcbPVTKxVK5oVBlEV4agU_LXUy8LUxTNUz6eV1GnV7N6VFIgVODJVXnNVh3YVpe8VwjqV_zZW2xw',
    6238: 'W3F0W1SKVzCqVt6hVlHiVcYPVTAxVK5vVBcfV4agU_BDUy5iUxFLUz0MV0_IV7DxVF08VO2fVXWTVguBVpPwVwXhV_nnW2lL',
    6245: 'W3S_W1Y-VzUuVtHIVld2VclUVTXhVKJ3VBy2V4kxU_SBUyAPUxPYUy-VV12GV77LVEzoVNxVVXSAVgqbVpMpVwZrV_ntW2tH',
    6252: 'W38kW1L6Vz7vVt0xVlF8VcVNVTBPVK5cVBetV4aJU_BMUy0bUx9CUyopV0n0V6tuVEhSVNdVVX8-VgSGVp3BVw8xV_U-W2ST',
    6259: 'W38bW1I7VzASVt0lVlJ7VcWDVTFrVK6RVBjEV4bHU_FkUy2PUxDHUyriV0pfV6xUVEhIVNhJVX5-VgWeVo_GVwF0V_SWW2aq',
    6266: 'W3DRW1P0VzJBVt9IVlSWVcdVVTMLVK9dVBkdV4YqU_BqUxwOUx5kUyfRV0h7V6j0VEaAVNSiVX1JVgJXVoz9Vw4qV_SiW2Tt',
    6273: 'W2oEW14cVyz1VsxGVlByVcUMVT9SVK2kVBYiV4RrU--XUxnyUwrWUyU_V0N6V6W2VEC4VNCkVWcUVg1BVoYAVvnUV_3xW2Be',
    6280: 'W2yqW18cVzA1Vt0uVlQcVcbDVTOuVK9iVBnTV4X9U_B2Uxp_Uw-rUyTEV0TLV6RRVEG0VN7SVWf8VfzVVoaFVvmmV_6QW2Et',
    6287: 'W2oHW16tVy-AVs-AVlEJVcYeVTDLVK8IVBdKV4X9U_24UxqlUws3UyT5V0JQV6OZVE4lVN18VWTSVfpeVoOiVvZSV-wfW1-M',
    6294: 'W2hCW0vBVyx6Vsq9VlDkVcQRVTDWVJ_nVBc8V4MDU-zJUxbhUwi5Uy9nV04NV639VDoNVMjCVWAeVfapVo8uVvSIV-mWW1_9',
    6299: 'W2hxW0vNVyyRVsrBVlGjVcTDVTIOVK4QVBilV4SKU_5LUxilUwrTUyHPV0F2V6AhVDzSVMpQVWKTVfemVoGBVvTgV-qbW1-B',
    6301: 'W2hEW10pVy-IVsztVlJ0VcbSVTJZVKB6VBh_V4WvU_2PUxkeUwlwUyFaV06eV64dVDpdVMgbVWC7VfW0VoC9VvNrV-sDW1yS',
    6308: 'W2UOW0owVypHVsovVlAEVcSZVTCEVK2uVBaYV4NtU-v8Uxa4UwZfUy3ZU_shV5tLVDVEVMRIVVolVfDqVnl4Vv3nV-P4W1fq',
    6315: 'W2RQW0kqVyp4VslqVlAjVcP0VTBSVJzXVBXeV4GGU-qbUxQcUwV3UxvPU_ptV5jiVDV6VMI-VVqzVf7PVnocVu_QV-SuW1dP',
    6322: 'W2Q7W0rHVyq1VsvWVlEYVcbSVTHOVKB6VBdfV4SoU-uLUxaXUwV6Uy0UU_mXV5ooVDP-VMMtVVlrVfAFVnkWVv0VV-PBW1bd',
    6329: 'W29ZW0USVye_VsdXVl7eVcMaVTCMVJyoVBXgV4B_U-kQUxEBUwEdUxYcU_ODV5E0VCxNVLliVVFPVec-VnH4VubgV-26W1Ko',
    6336: 'W27NW0b3Vyb_VsjUVl4rVcTOVTBIVK6FVBZvV4PEU-qYUxUpUwNiUxqRU_YDV5TxVD4cVLxGVVNLVejRVnO4VueBV-9HW1Lv',
    6343: 'W2BxW0ZiVyisVsjkVlBaVcSZVTG4VK2sVBbzV4J8U-pmUxMJUwJSUxfVU_PPV5GmVCsWVLiGVV3vVeT8Vn0nVuO4VznbW18R',
    6346: 'W1yxW0OMVyVPVsagVl0iVcLrVT6tVJyhVBR_V4A-U-czUxBHUw4VUxTkU_BXV57YVCiTVLcdVUzmVePnVmy-VuKlVzjVW12S',
    6350: 'W1xLW0ONVyUqVsZQVk-SVcHuVT1dVJruVBKLV42QU-UiUx28UvzMUxKIU_69V4zBVCeqVLRZVUyBVeFkVm-KVuENVzpCW11y',
    6357: 'W1zkW0TgVyc3VslSVlB-Vca4VTKAVKBTVBeQV4NfU-mHUxJ_Uw9SUxXbU_BkV56bVCezVLYnVUvbVeMXVmxgVuL5VznBW17v',
    6364: 'W1j-W0A3VyPCVsUGVl24VcLOVTC6VJzeVBVsV47uU-agUw_QUvuvUx6PU-rmV4b2VCEiVKzWVUTRVdnjVmWIVtqaVzO_W0jw',
    6371: 'W1dUW0AnVyGRVsSyVktLVcItVT1LVJyTVBNoV4AdU-W_Ux76UvvTUxIAU-v9V4ooVCJPVLAoVUYdVdyVVmbQVtxmVzTdW0na',
    6378: 'W1mxW0E1VyVfVsaNVl8wVcR4VTIHVK2oVBbwV4DKU-gyUx5GUv-YUxBdU-unV4dxVCD4VKyrVUMyVdjsVmMmVtlLVzFWW0f-',
    6385: 'W1PTW007Vy9yVsNAVkpYVcD7VSxJVJoSVBC1V3vkU-E2UwkgUvVtUwo-U-QVV4EhVBo5VKalVU1bVdOCVm7wVtTPVz7AW0SJ',
    6392: 'W1QdV_-4VyGWVsSgVl1XVcQ6VTFrVK4YVBa1V4DbU-bmUx1CUvppUx22U-eBV4PQVBuAVKhCVU0CVdQ_Vm0-VtT_Vy-4W0T7',
    6393: 'W1PVW036VyEjVsVkVkz-VcR3VTADVK3UVBSRV4AeU-SmUwyoUvgtUwzHU-XWV4LaVBryVKfEVU3aVdR8Vm8rVtU-Vz7GW0S-',
    6399: 'W1OBV_z7VyEVVsQWVk-QVcM8VTAXVJ-7VBRuV43xU-QEUwp5UvakUwkzU-MrV42bVBcsVKIpVTmlVd3GVlp-Vt8PVyp0W0A6',
    6406: 'W19FV_nKVx_4VsFAVkl3VcBLVSxyVJqCVBEDV3wvU-D8UwhMUvO5UwfHU-AmV3_PVBRiVKI6VTdRVd4gVljUVtB5VykyW0CP',
    6413: 'W1HTV_r_VyE9VsPQVl3EVcPSVTIpVK3gVBb1V48nU-XAUwqiUvc_UwhoU-I-V3wOVBT9VK7pVTaRVcvlVlfaVt3jVyj6W0At',
    6420: 'W0z6V_gOVxuoVsCzVkiiVcBTVSwIVJpPVBADV3sRU-4eUwXAUv9eUwNgUzrPV3baVB0FVJoFVT9gVcZuVlIbVskpVyR5V_uU',
    6427: 'W0uIV_UrVxvBVs7CVkoQVcAsVT4dVJssVBN_V3ygU-KTUwexUvPnUwViU-3pV3icVBAPVJsoVTCuVcaOVlDgVshCVyG6V_p7',
    6434: 'W0_GV_k5Vy24VsM5Vkw3VcMuVT8FVJzrVBLfV3zAU-BgUwYwUvCAUwKwUzqqV3VeVAziVJfwVT4pVcP3VlAcVsY8VyHGV_ie',
    6440: 'W0dKV_IKVxkyVs0JVkjTVc7eVT1bVJpOVBIMV3qJU-8DUwOGUv5LUw65UzebV3C5VAhfVJIsVSkJVc1UVkp3VsDPVxxdV_Rv',
    6441: 'W0cRV_J3VxhVVr_1VkdPVc4IVSvpVJkrVB9uV3lbUz_bUwKDUuyjUw3jUzWeV3CrVAbuVJNfVShgVc99VkowVsLUVxyXV_YW',
    6448: 'W0hbV_P6VxrQVs94Vks2VcIYVTCEVK03VBU8V41AU-J0UwYhUvCXUwBmUzgqV3CgVAg8VJGUVSi6Vb_VVkpWVsEsVy0tV_Y6',
    6455: 'W0ajV_MeVxhXVs3mVkeNVc9YVSx7VJqHVBB7V3qNUz_MUwM8UuubUv_sUzMDV30rVAKTVJ3_VSM4Vbo9VkURVs0aVxjUV_JP',
    6462: 'W0QAV_6MVxccVru5VkdJVc0cVSxhVJi7VBBoV3i7U-0DUwEAUuwPUvuhUzP1V2wVVANAVI-1VSMiVbhsVkRGVrveVxcmV_Co',
    6469: 'W0X9V_P4VxnfVsDXVkpjVcLfVT5yVJzGVBGZV3sZUzzbUwH6Uun0UvrcUzBsV2qJVAAfVItlVSEhVbdNVkPJVrtqVxg_V_EK',
    6476: 'W099V-vNVxRWVro9VkYsVc0KVSx4VJjEVB9vV3fHUztqUw3QUuehUvbHUy-bV2W-V9tnVIYbVRs-VbI3Vj-lVrZhVxFqV-x_',
    6483: 'W06AV-y-VxRbVrthVkbTVc84VS_vVJswVBG6V3pZUz-0UwC2UujEUvfuUz0cV2WHV9taVISxVRrxVb9hVj-qVrRoVxIhV-s-',
    6487: 'W0E6V_1JVxZVVryeVkipVcCMVT6DVJv_VBLDV3rXU-1oUwDUUulZUvhVUz0vV2YEV9quVIUqVRlvVbAuVjs7VrSDVx97V-tc',
    6490: 'W0AIV-_oVxTkVruuVkajVc6ZVSyWVJpAVBBAV3l3UzujUw8OUue2UvdpUywkV2VHV9lkVIS2VRhrVb8GVjpUVrPnVx7GV-q9',
    6497: 'V_vcV-kYVxJXVrh-VkU4VbxYVSsYVJdpVB3tV3XeUzl0UvtfUuRhUvJGUyiLV27XV9WAVI2YVRS3ValcVjasVr4oVwxJV-am',
    6504: 'V_vbV-tqVxN2VrvGVkalVcBBVS-IVJt4VB9uV3k0Uzn2Uv_uUuOuUvNSUybCV28RV9MFVI1AVRI0VajTVjTvVr43VwvoV-c_',
    6511: 'V_p5V-dgVxGaVrgFVkWOVb--VSz4VJjrVBB6V3cDUzolUvtXUuPCUvD7UyYhV1xpV9G6VHp3VR7xVaUcVjFKVqqAVwcyV-Mb',
    6518: 'V_aMV-aBVx5tVrfeVkN_Vb_SVSqkVJjKVB0yV3ZGUzboUvnFUu9MUv3OUyHLV1lmV907VHcZVQxtVaItVj7xVqfeVwZYV-DO',
    6525: 'V_jxV-dDVxFLVrjEVkXJVc3IVS-KVJnbVBB1V3d-UzlvUvs6UuIKUv84UyOAV1qjV94XVHifVQzyVaQ8Vj8HVqo1VwZKV-MT',
    6532: 'V_ObV-NMVw_yVrXhVkM2VbwVVSqqVJfWVB15V3UKUzZZUveSUu24UuqIUy3EV1PVV8h5VHAjVQY8VZrdVikJVqGvVwFMVzzF',
    6534: 'V_HrV-L2VwuaVrVcVkEiVbuYVSjVVJdUVAvzV3S_UzTmUvfZUt-wUuv6Uy2uV1XLV8iAVHJ5VQYlVZxOViiPVqHFVw9SVztd',
    6539: 'V_K2V-L0VwxcVrWkVkIZVbwgVSoIVJgUVA_MV3WBUzYWUvhiUu1PUuv7Uy1_V1V6V8duVHFXVQSNVZubVid2VqIBVw8SVz-0',
    6546: 'V_RFV-NaVx5tVrbGVkUfVb_wVS-7VJkWVB9AV3XfUzfxUvgSUu71UurMUy6CV1OyV8gNVH7QVQSSVZlCVia0Vq7wVw1-VzpK',
    6553: 'V_2uV-ALVwneVrRhVkCsVbtlVSiUVJbBVAr7V3KiUzH7UvOCUtehUuURUxaQV108V89SVGmBVQ0pVZRhViFcVpu9VvqDVzch',
    6560: 'V_AVV-90VwwlVrSwVkP5VbyqVSymVJkCVB8mV3W5UzboUvZLUtxSUud2Uxp2V15gV8JMVGq6VQ6rVZWOViJeVp_KVvtnVzm8',
    6567: 'V-x3V-2QVwjTVrNsVkE8Vbw4VSqBVJjSVB1IV3VKUzT8UvVbUtl1UuT7UxW_V0pQV7xmVGPgVPhxVZ0aVhv3VpVDVvX_VzL9',
    6574: 'V-qZVztEVwbxVrB_Vk4YVbhtVSd-VJS_VApqV3EtUzGoUvI5UtbkUuKtUxRAV0n2V7uFVGRwVPeoVZ58VhqzVpZqVvSNVzOD',
    6581: 'V-xTV-22VwqUVrSKVkNqVb-gVSxuVJkYVB4qV3SEUzTAUvPwUtjkUuNKUxWQV0lDV7y5VGMVVPh0VYytVhrUVpQbVvSFVzGP',
    6588: 'V-acVznAVwWHVrEhVk5XVboLVSfjVJX9VAmPV3BdUz4UUv53UtG2Ut-vUw-dV0L1V7OWVFz4VP9VVYclVhPPVp8wVv6yVz3G',
    6595: 'V-Z4VzeBVwWfVr8aVkATVbnkVSqhVJcbVB0lV3LDUzNZUvFOUtYWUu6YUxDcV0O6V7YZVFxvVPEZVYZCVhQIVp4yVv4_Vz0D',
    6602: 'V-XWVzmnVwW9VrHhVkA9VbwcVSpxVJkkVA-_V3S9UzK8UvK2UtRwUu6uUx2LV0IZV7I_VFmmVOzRVYKjVhAwVorvVuvfVyot',
    6609: 'V-MPVzSxVwKYVqyxVjyaVbZdVSZvVJLRVAj5V31WUz1RUuveUt9sUtkpUwo3U_-tV759VFZ1VOo4VYD4Vh1UVop1VunQVyod',
    6616: 'V-KBVzbMVwROVrCyVkAUVbuqVSrRVJiWVA-pV3NCUzGhUvBEUtL1UtwNUwulV03QV77qVFWYVOnmVY59Vg_uVoe_Vun2VygX',
    6623: 'V-CFVzQUVwHXVr1sVj_xVbjOVSfyVJVLVAmlV36pUy-iUutVUs_2UtaoUwVtU_k3V6jEVFCiVOMVVXpLVgbxVoQQVuR7VyWG',
    6628: 'V-0HVzD6VwAlVquMVjy3VbbqVSdUVJOzVAlRV31UUy-GUuoXUs-TUtUlUwTZU_bnV6eAVF2WVOF8VXebVgS_VoFtVuH3VyML',
    6630: 'VzxRVz8gVw4tVqpsVjuHVbaLVSdMVJRCVAoWV36HUz3MUuuMUt50UtaoUwbkU_hPV6nfVF6YVOOIVXfpVgZxVoDhVuKKVyGg',
    6637: 'V-4tVzQUVwH9Vr8FVk5XVbuhVSpHVJi-VAwsV3JcUz6PUv0NUt25Ute2UwTvU_hdV6dKVF5iVOEvVXfvVgUcVoFxVuK5VyK_',
    6644: 'VzqKVz1eVw1nVqlmVjsEVbW0VSZrVJKHVAhZV2w_Uyt7UudIUsnxUtDKUwBYU_EyV6IiVEfMVNviVXH6VgAgVnyjVu2lVy7c',
    6651: 'VzgnVz4BVvzrVqtkVjtoVbj3VSg4VJbNVAr2V3EMUz1mUuwIUsx8UtSnUwGrU_NwV6IqVEg8VNr4VXAKVg3gVnnyVtzQVx-F',
    6658: 'VzrYVz6EVw5mVqt7VjxsVbeSVSffVJSFVAmOV31VUyvqUuhDUsmyUtDNUw5RU_A5V66iVEV4VNeEVX29VfsWVnilVtnFVxy7',
    6665: 'VzPfVymcVvlUVqcjVjhmVbTPVSU9VJKVVAcdV2w6UylhUuYVUscKUt33UvxXU--TV5-dVEI8VNXiVWpZVfm1VnRxVtepVxee',
    6672: 'VzZpVy-BVv-PVqvDVjzbVbnhVSlyVJc-VAq_V37eUytXUuf7UsbxUt37UvpmU-wtV5ozVEFAVNMyVWqaVffvVnXvVteZVxow',
    6675: 'VzRJVyukVvsvVqqbVjtLVbkiVSi3VJd4VAqrV3BiUyxJUumGUshsUtALUvuJU-z-V5oWVEB6VNGIVWg1VfVgVnL4VtV4Vxe9',
    6679: 'VzIBVycuVviMVqXsVjjHVbSiVSYkVJLOVAh6V2utUylzUuRAUsUmUspLUvgoU-d5V5cUVDsyVN6cVWQ6VfNVVn8nVtMSVxTQ',
    6686: 'Vz5EVyZrVvY9VqXNVjaxVbUBVSSZVJPNVAddV2_WUykhUuZaUsTxUsxIUvdqU-hiV5VVVDsGVMxyVWKCVfBLVm_ZVtBgVxK4',
    6693: 'VzKuVygpVvoxVqeAVjq1VbY3VSdVVJOOVAjPV2vfUymIUuQdUsTaUsnsUvdIU-ZbV5U-VDmQVMwxVWHAVf9SVm_LVt9FVxMS',
    6700: 'VyuXVyPgVvSKVqSIVjYnVbQQVSPPVJIYVAVhV2oxUyWmUuH1UsBBUsaOUvIcU-IgV5AGVDTAVMe1VVyHVeuvVmfiVsxEVx1Z',
    6707: 'VyxZVyPVVvZmVqXLVjk9VbYoVSckVJRGVAhjV2ucUydxUuH1UsB2UsUGUvA-U-8aV4zCVDIZVMOiVVqGVegkVmcNVsnHVx3y',
    6714: 'VysyVyKNVvSCVqPJVjc4VbRQVSW-VJNPVAg0V2ugUyfjUuIuUsEPUsV2UvECU-67V4_7VDBlVMORVVfUVee8VmPAVsicVwrd',
    6721: 'VycPVy90VvEwVqHcVjQsVbLHVSMEVJGrVAU8V2mbUyRvUu9JUr-GUsKCUuxFUzw2V4fVVC-vVM27VVTPVeKEVmFGVsSyVwk6',
    6722: 'VydPVy94VvHFVqHSVjTSVbKuVSOzVJGuVAXYV2nGUyVrUu9UUs1qUsI8UuzRUzqLV4fgVCrPVL__VVH4VeG5Vm2UVsOnVwaC',
    6728: 'VylHVyCTVvR2VqMgVjdwVbQ0VSYAVJJtVAe0V2nWUyZwUu8LUs58UsHkUv1bUzsiV4lnVCy7VM8iVVSbVeQjVmGzVsYyVwo9',
    6735: 'VyPPVy2IVvAIVqHvVjR_VbOwVSOZVJJlVAU9V2mAUyNzUu4OUrr_UsABUukiUzghV4PDVCgyVLlmVV6zVe1xVlvLVsDRVwSQ',
    6742: 'VyIyVxpgVv5jVq5SVjPEVbETVSNbVJAeVATyV2c_UyMvUtvqUroiUrzoUueVUzTAV4F_VCTZVLZZVUwTVdp4VlkNVrzfVwK6',
    6749: 'VyOEVx_vVvA_VqH9VjU-VbQZVST_VJNFVAacV2pUUyTFUu5KUrudUs7ZUukIUzaWV4MJVCYDVLgiVUyKVdwUVljWVs4BVwGc',
    6756: 'Vy4QVxh6VuxQVq1SVjJ2VbE4VSJxVJBLVAPfV2bEUyECUtoAUrYmUrkcUuHCUz7hV3q8VC59VL7WVUZ1VdR7VlQ_VrhjVw4-',
    6763: 'Vy3wVxgCVuzCVq1XVjMRVbFEVSOXVJDmVAVYV2evUyLNUtsKUrgnUrniUuP5Uz88V3x8VC2lVLDjVUVRVdXPVlObVrojVw4u',
    6769: 'Vy6WVxgKVv0LVq2cVjPyVbGwVSSfVJG1VAaGV2haUyQ8UtuzUrkXUrpbUuQJUz8MV3uGVC0fVL6QVUR9VdMeVlIiVrcZVv_S',
    6770: 'Vx_pVxj2VuxMVq7EVjMRVbMaVSPfVJLgVAWfV2m3UyKmUtxRUrclUrpfUuGCUz5lV3iPVBwqVKvaVUI2VdAQVl7vVrS_VvrE',
    6777: 'VxorVxOEVulaVpoaVjAOVb0pVSBrVIziVAGcV2MDUy3lUtXOUrMtUrRQUu38UymnV3YLVBfoVKnLVU4hVd2AVkz6VrJRVvhy',
    6784: 'VxprVxb0VurNVq4FVjK_VbMbVSPVVJL7VAUJV2i5UyEbUtpIUrTRUreeUu6EUywKV3aeVBnHVKrEVUAYVd82Vl0yVrQHVvje',
    6791: 'VxarVxFdVugDVppWVjDWVb98VSK9VJ8cVAOaV2TmUy5RUtWWUrE3UrFvUtlKUySXV37KVBHqVKKtVTjtVcetVkgTVq_qVvUi',
    6798: 'VxOZVx7yVuTVVpgnVj1VVb1kVSAjVJ4jVAJCV2U7Uy4DUtZuUrFeUrJZUtnfUyTOV38jVBDwVKKWVTbJVcdAVkVGVqztVvJI',
    6805: 'VxXdVxI8VufAVptfVjDvVbErVSMUVJGkVATgV2ejUyD0Utj6UrLlUrQpUtp9UyXUV33xVBDuVK9RVTXVVcOUVkPvVqloVvFT',
    6812: 'VxIJVw_pVuRUVpb9Vi_tVawbVS5rVIu_VA8_V2CkUxqcUtDlUqy4UqwmUtRqUy3eV2nIVAqBVJy2VTDJVcFrVkBUVqgFVv5E',
    6816: 'VxCHVx0oVuOnVph2Vj1pVb5YVSCMVJ7kVAI5V2SUUxypUtRIUq_wUr3qUtPbUy83V2fzVAr9VJo1VTBsVc5QVk8HVqWyVv15',
    6819: 'Vx8CVx0gVuOfVpkhVj5DVbBjVSHHVJEPVAMeV2YMUy0RUtWEUr38Ur86UtSnUyBJV2iuVAsxVJqmVTCcVc8KVk8QVqZwVv0-',
    6826: 'VxAlVwvjVuRGVpduVj89Vb5NVSKPVJ7lVAOYV2PUUx_9UtJHUqzEUqsUUtI9UxsOV2UuVAXgVJbHVSvnVbuXVjvSVqLCVut6',
    6833: 'Vwp8Vwg-Vu3NVpOZVimbVaslVR-WVIxgVA5_V2HFUxmaUtEUUqnmUqpEUt8OUxoQV2LvVAR3VJSXVSlLVbleVjhOVqC5VucO',
    6840: 'Vw_wVwptVuKoVpc2Vj4rVb6MVSJhVJB9VAQ4V2UiUy1fUtOeUq-JUqvgUtFRUxrmV2NKVASWVJPFVSmeVbgFVjkiVq84VujR',
    6847: 'VwmDVwdlVu6_VpPtVissVauVVS3IVIwBVA6CV2ADUxgmUt13UqbtUqVoUstBUxQLV20rVA0pVJ68VSMuVbRyVjPWVp_EVuTp',
    6854: 'VwUCVwQGVtwXVpKNVin_VawpVS5FVJ2AVACUV2L7UxoIUtCLUqhcUqfEUsuOUxVzV1xTVA0xVIvgVSGxVb9xVjEcVpg_VuH3',
    6861: 'VwknVwarVuBCVpT5Vj0VVb0MVSGBVJ3pVAJGV2IaUxr2Ut5bUqgxUqUmUsrgUxJTV1uXV9qyVItxVS7kVb9kVj98VphpVuF8',
    6863: 'VwXEVwVeVt_tVpQ6VitxVb0DVSAYVJ68VAFMV2LVUxmaUt6kUqa5UqSiUsiAUxEJV1kHV9kcVIm5VS2IVb6JVj5jVpi-VuDY',
    6868: 'VwG3VwFYVtjsVpACVic1VamsVRvIVIthV9_CV28RUxXzUsxnUqNTUqKTUsXWUx8TV1aSV9fIVIbNVRxEVavLVix4VpSrVt-j',
    6875: 'VwO8VwG_VtxGVpGqVitnVax7VSDcVJ3GVAJVV2IVUxpGUt1WUqY-UqJxUsbXUx1sV1XXV9VtVIUlVRq0VapHVivuVpQRVu4e',
    6882: 'VwDCVwDVVtlfVpC0VihZVarPVS0aVIydVA5XV2B0UxagUsv8UqK2Uq9_UsMLUwrQV1IMV9GIVIF_VRXQVabcVicEVpFWVtp1',
    6889: 'Vvy1VvvkVtYDVoz6ViXbVag0VRvVVIpzVA15V24xUxYVUsrYUqJ7Uq8OUsKrUwqWV1DXV9DgVI51VRQjVaJzViRHVovVVtbl',
    6896: 'VwAbVwAMVtqdVpEqViqTVaw2VS9HVI_PVAB2V29hUxbgUspSUqHCUq1TUsHRUwhdV1BkV951VI6IVRK4VaOaViO1Vp1BVtcZ',
    6903: 'VvlrVvqvVtRjVozOViVkVajZVRvJVIt7V9-MV23TUxPTUsikUq2eUpuVUr-yUwW8V0r_V8uHVHloVR7UVa3qViBqVoklVtPq',
    6910: 'Vvi3VvhhVtT5VouqVibzVajDVS31VIvCVA9CV256UxYRUsgdUq6mUplrUryDUwGAV0iYV8ZVVHYFVQopVZsBVhy7VoaaVtHs',
    6917: 'Vvj3VvqZVtQhVo-5ViW6ValdVRxLVIx0VA2EV28jUxTsUsmfUq4DUpszUrwIUwMDV0gFV8coVHVfVQoaVZpWVhuBVoXrVtBD',
    6924: 'VvUvVvV-VtGyVojZViOqVaWjVRqSVIhjV9wHV1u3UxKSUsV2UpvnUpbRUrkyUw5YV0TMV8N6VHF-VQZTVZWkVhfxVoDmVs_8',
    6931: 'VvSfVvcPVtJwVotbViVKVaiXVRxQVIsKV9-RV1-ZUxJoUsV_UpqTUpXDUrd4UvzmV0LtV8DpVHBTVQQdVZWUVhZHVoHzVsxq',
    6938: 'VvHjVvPnVtA5Vol8ViPsVafCVRwQVIsTV9_iV1_YUxKOUsVcUpnzUpUVUrWBUvuvV0AOV87EVGxxVQIoVZEgVhQxVo06Vsph',
    6945: 'Vv16Vv8qVs-5VoX9ViHIVaTpVRqGVIixV9weV1sBUxEeUsJ-UpflUpESUrKXUvZZU_xSV7jcVGgsVPtfVYz3Vh16VnlAVsSz',
    6952: 'Vv9xVvNMVt4bVojjViL1Vae7VRs5VIs7V9y9V1_sUxH8UsVNUpjjUpRuUrPNUvn_V007V7xYVGlKVQ4CVZ23VhBoVnqzVsbQ',
    6957: 'Vv2UVvDgVt0xVoeSViLMVacLVRupVIrNV9-LV1ymUxFAUsMhUpakUpC9Ur8vUvSnU_gOV7aEVGNNVPjwVYgoVgvFVnXLVsOg',
    6959: 'VuypVv4EVszHVoV0ViH8VaRgVRpOVIftV9udV1npUxAuUsDgUpZ3Up57Ur9OUvMWU_hRV7TrVGN-VPe0VYggVgqWVnWOVsLP',
    6966: 'VukRVv0YVsnkVoU0Vi8WVaSrVRiOVIhqV9ndV1pCUx2uUsDeUpPkUp37Uq-sUvH-U_WFV7MKVGDCVPTzVYY0VgfzVnRlVsCa',
    6973: 'VushVv1eVswqVoXaViJlVaY_VRvlVIpbV9_uV1wuUxF-UsJXUpZmUp6VUr4iUvJIU_XaV7MUVG9vVPT1VYQ3VgdZVnGLVs9c',
    6980: 'VuV1VulpVsd4VoHuVi2KVaKFVReYVIa0V9i-V1eyUwwaUr-aUpCOUokqUqjDUuwAU_CGV6zEVFtxVP4VVYB7VgGIVn3LVrpf',
    6987: 'VuXmVupeVsgZVoO4Vi7RVaSkVRliVIkOV9raV1qCUx31Us9MUpIsUouMUqmjUv2nU_DCV75_VFtsVPEBVYBlVgQzVn5cVr-N',
    6994: 'VuMXVubiVsaaVoEKVi60VaMZVRnFVIgIV9u8V1lxUx4HUs29UpGRUohKUqeOUujwU-zsV6fwVFZ9VOlRVXs7Vf_gVmpVVrgk',
    7001: 'Vu4cVuRwVsH_Vo49VhocVaBmVRTSVIVPV9aoV1c3UwoQUrwNUp0VUobiUqPqUufAU-lYV6a5VFKZVOczVXdQVfq3VmbLVrT9',
    7004: 'VuATVuZ7VsQpVoDeVhzTVaMFVReHVIeeV9jEV1hzUwt3UryAUp1lUoaXUqPwUudbU-nLV6aYVFPRVOftVXkDVftzVmi0VrWn',
    7008: 'VuIPVuYqVsakVoFQVi8XVaP0VRpxVIh-V9vdV1mJUx4dUs1xUpF-UogiUqc4UuhaU-tcV6aGVFNbVObWVXbOVfnrVmVqVrRk',
    7015: 'Vt-2VuOOVsIzVo6GVhtsVaFrVRYRVIWyV9bDV1XOUwhhUrjtUoocUoIKUq7HUuHzU-R_V6CdVF2WVOH9VXNHVfWjVmNTVrDd',
    7022: 'VtsCVuBtVsDcVn-kVhtZVaEUVRe2VIazV9l4V1e5UwsEUrpnUovuUoKsUq8eUuGUU-MtV68JVEuIVOCHVXB7VfTbVmC9VrCa',
    7029: 'VtsjVuE7VsFRVo1HVhxDVaIjVRjvVIhEV9sQV1kvUwz6UruUUo-9UoKdUq8oUu9XU-IgV5wyVEn4VNxHVX3VVfD9Vm6uVr0O',
    7036: 'VtZpVt-QVrxbVnn1VhbAVa09VRLCVIMQV9SOV1Q0UwaDUrcDUoe3Uo6cUprZUt_YU-1DV5pWVEWSVNqaVWpNVf5MVlspVqsF',
    7043: 'VtdiVt_ZVs7-VnuyVhtPVaBxVRffVIYkV9l_V1aLUwrCUrj9UorrUo9hUq0BUt-xU-8cV5ldVEZsVNkCVWohVe-OVlpmVqnQ',
    7050: 'VtRtVtzgVrzQVnuBVhjFVaAnVRU9VIVJV9XGV1SyUwXyUrXAUoUAUnvoUpbdUtieUzjsV5T5VECdVNToVWXrVenSVlgGVqeh',
    7051: 'VtVyVtvzVs2bVnrKVhphVa92VRbUVIU0V9eWV1Q_UweBUrTmUoZ5Unr8UpfpUtdzUznuV5PEVEFPVNQIVWXgVejYVlc3VqZS',
    7057: 'Vt8VVtXuVriiVnXFVhYaVZxGVRR4VIN9V9aXV1PfUweCUrV4UoZRUnreUpcWUtafUzePV5H7VE02VNEQVWEYVeVgVlIIVqMF',
    7064: 'VtJGVtqdVru_VnpoVhkuVaCmVRc6VIcpV9jNV1cpUwkOUrevUocRUnwvUpcEUtauUzcKV5DXVD-tVN9UVWGdVeRyVlOTVqL2',
    7071: 'Vt1_VtWLVrdZVnWDVhSsVZuxVRJZVIIeV9QfV1IaUwRTUrKsUoJ2UndoUpIMUtJoUzI4V4_7VDgWVMzrVVyyVeIiVl6NVqD9',
    7078: 'VswHVtR5VrddVnWyVhY_VZ-AVRTIVIQFV9bYV1QAUwbQUrQ0UoQRUneOUpM3UtEMUzHVV4pYVDc6VMkXVVstVe3jVl1IVq21',
    7085: 'VsyEVtXkVrdgVnc-VhXkVa35VRQHVISpV9VWV1PHUwRgUrL_UoDYUnYgUp7AUt8BUz1gV4jMVDMiVMegVVfrVd_BVkutVq0J',
    7092: 'VsarVt3NVrKCVnCvVhJNVZk4VRGuVICSV9QGV1CUUwPIUrBEUoCaUnOJUp61UsyyUy-hV4WbVDG5VMPhVVTIVdibVka-Vpfn',
    7098: 'Vsf_VtDpVrTaVnQaVhTaVZx1VROfVILaV9TDV1G1UwMBUr8nUo3QUnH6UouXUspvUymDV4PDVD4NVMMTVVNFVdlAVkchVpp1',
    7099: 'VsgiVtLSVrUqVnYEVhV-Va3dVRSIVIVHV9XdV1QAUwQgUrIMUo7XUnPBUoyQUsvpUyqEV4SAVD8aVMM8VVRHVdhLVkf6VphW',
    7106: 'VsUSVt0oVrIFVnEcVhKPVZo4VRJCVIGeV9RZV1EDUwMZUr7YUo2uUnDRUoqXUsi3Uyd-V4DfVCv2VM90VVATVdXJVkPCVpb1',
    7113: 'VsCTVssJVr5NVn7yVhCAVZlJVREoVIH6V9PiV1GKUwLMUr8iUo05UnASUok4UsY8UySbV3xWVCf5VLmNVUudVd72Vk9mVpEe',
    7120: 'VsOFVt0bVrF6VnH6VhJ5VZrkVRIIVIK8V9Q3V1GtUwJqUr8YUnzjUnB6UohCUsaNUyOtV3_1VCaEVLqWVUpMVdBbVk5KVpJV',
    7127: 'Vs4XVshMVr0nVn0HVh9mVZeeVRBoVI8WV9JnV14MUwC6Uqw8Unq-UmxMUoYpUsK1UyHXV3kaVCTSVLa4VUhfVcwoVjwsVp1i',
    7134: 'Vry1VsjkVq-OVn8nVhBwVZqRVRFWVIJzV9LFV1BiUw7kUqwdUnejUmqSUoFNUs7oUxwRV3WhVC7dVLNqVUQsVcnTVjmPVoxq',
    7141: 'VrynVsZNVqyUVmzKVhAhVZhLVRHlVIF0V9RnV1AhUwHXUqxjUnpPUmrBUoOGUs6KUx_UV3SsVC8AVLI_VUNqVcjgVjhhVowJ',
    7145: 'VrjpVsWrVqo7VmzgVh1ZVZhAVR6xVICMV9E8V15DUw1NUqq7UnXiUmi5Uo5lUrxTUxiVV3FIVBr9VL2KVU60VcRMVjTEVofT',
    7148: 'VrbTVsNDVqf9Vmp-Vgw3VZa4VR3AVI9cV9EnV16MUw4yUqskUnbQUmj0Uo75UrugUxgbV38sVBmjVKvfVT__VcHqVjM9VoVe',
    7155: 'VrmYVsRzVqqFVmupVh3LVZclVR9OVI96V9I0V13UUw6XUqpZUnd3UmhuUo9rUrwuUxjuV3EAVBpEVL19VU1DVcQhVjMbVofE',
    7162: 'VrWXVsHsVqh9Vmp_Vg_uVZbjVR8YVI94V9GlV11pUw2qUqkOUnWBUmYBUo09UrijUxYoV2yUVBduVKjPVTsfVc7IVjE1VoOh',
    7169: 'VrD-Vs2-VqRoVmf-VgqJVZVcVQ_qVI4mV98XV0yVUvu8UqbmUnGhUmLRUnh5UrSUUx90V2gBVBBcVKQlVTQuVbrtVirhVoA3',
    7176: 'VrQ8Vs7nVqc1VmilVg-IVZYpVRBNVIA9V9MYV14DUw7_Uqk9UnWnUmSYUnw7UrX9UxMBV2iXVBMTVKRwVTZFVbsqVixAVoAt',
    7183: 'Vr0-VrvbVqG-VmYhVgiZVZRUVQxNVI3bV96DV0yNUvrYUqZhUnB4UmEWUnWZUrFCUwvnV2NhVAwHVK6JVTAQVbX_VicyVntQ',
    7190: 'Vr3GVrpQVqL1VmToVgmpVZMLVQ-rVHzYV98lV0rYUvtTUqSWUnCWUm7NUnXOUr8pUww2V2JSVAwEVK5BVT9jVbZnVibfVnxi',
    7192: 'Vr6UVrwAVqOdVmZnVgqJVZRYVR1hVI1wV9ApV0v3UvujUqUpUnD5Um8AUnXhUr7WUwvdV2ETVAtgVJxoVT5SVbOpViYrVnpe',
    7197: 'Vqu-VrpdVqGDVmYoVgnNVZVSVR2lVI8lV9DfV10hUvxLUqbOUnDgUmBoUnUdUr6tUwooV29qVAkqVJqcVSyQVbGBViQcVngg',
    7204: 'VqeiVrUuVp_fVmF3VgWjVZCCVQoBVHrXV8ytV0j1UvfuUqHOUmxQUluLUnBbUqqxUwUcV1vSVAOdVJayVSaGVb0rVi1rVnRu',
    7211: 'VqlKVrd2Vq9kVmPPVgjyVZOlVR1JVI30V9ByV0vRUvtFUqRCUn6oUl_7UnLhUqulUwe8V1wgVAXzVJaUVSj1Va_XVi9CVnQ0',
    7218: 'VqUiVrSjVpyYVmJbVgZvVZLnVQuuVI0cV92rV0r9UvgsUqIsUmqpUlnaUmzcUqd7UwC9V1dtVA6IVJJ-VSM7VapQVhu-VnHw',
    7225: 'VqJdVrALVpo-Vm27VgRzVZ63VQpBVHpQV8_lV0gSUvfpUq9DUmq2UlchUmwvUqPGUw6AV1NPV9zJVJ34VSBMVaaWVhjyVn6S',
    7232: 'VqKFVrLYVprXVmE_VgW4VZKMVQuxVI3OV97CV0xmUvnyUqQNUmx6UlrXUm-sUqZDUw5RV1QOV9ttVI-nVS37VaRKVhcXVmzD',
    7239: 'Vq9iVr2OVph1Vly2VgKVVY_qVQgjVHhaV8rQV0WeUvTbUpzzUmcNUlQfUmhkUqCIUvqhV18iV9epVInuVRqNVaHlVhNHVmrE',
    7246: 'VpyMVq-vVpbjVl_mVgN1VZ9xVQoRVHuzV8-QV0jNUvaNUq6uUmfCUlUGUmh0UqAsUvoJV13JV9cGVIf7VRndVa6FVhK0VmeN',
    7253: 'VpxjVqyrVpcOVm0sVgPUVZCuVQrWVHxeV906V0jWUvYHUq2kUmXTUlLUUmTOUp_1UvWJV0t2V9IwVIVTVRWsVa1bVh8iVmfL',
    7260: 'VpbcVqa8VpGpVldtVg5hVYsFVQbXVHfZV8r6V0WKUvRhUpubUmT4UlA_UmOFUpmjUvNqV0Z7V95-VI6tVRGAVZctVgraVmEj',
    7267: 'VpihVqpOVpQ7VlvGVgFaVZ7tVQl1VHwWV8znV0mMUvZNUq7mUmZGUlOlUmRYUpxWUvN2V0fyV91lVIA5VRB6VZeGVgopVmGk',
    7274: 'VpdVVqc8VpMcVliTVgBZVYvSVQeLVHeeV8pFV0QXUvLCUpkkUmIqUk-OUmAuUpYIUv7sV0KGV8r1VHvxVR14VZUAVgguVmBd',
    7281: 'VpC4VqNTVp2gVlbsVg0DVYweVQZoVHl0V8o5V0YVUvJwUpqzUmEkUl0OUm2lUpUhUuxyV0AiV8cTVHgiVQn7VZAaVgR0VlsG',
    7286: 'VpPlVqZgVpDTVll1Vg72VZ06VQd0VHnUV8oyV0ZFUvJfUprIUmEJUl1dUm2yUpY1UuzMV0GYV8f1VHocVQr4VZKCVgWjVm0z',
    7288: 'VpR9VqUIVpGEVli4VgCNVZ05VQkqVHpFV8xFV0a6UvPbUponUmFsUkwjUl_cUpNcUus7V04_V8VaVHe6VQgQVZBnVgMIVlyH',
    7295: 'Vo_EVq6WVorPVlKuVfqFVYhiVQQTVHYtV8hCV0N-UvDbUpfhUm6hUkoUUltuUpDwUukaU_trV8MsVHMXVQVYVYsAVg8ZVlZA',
    7302: 'Vp0DVqA_VoxCVlUiVfz9VYu2VQaKVHkzV8pbV0XRUvICUpksUm5mUkoqUlmkUpAHUuYCU_oAV87vVHHOVQHtVYpzVf_SVla_',
    7309: 'VoxuVq2cVov3VlMyVfxqVYlvVQYEVHbhV8mCV0MxUvDuUpZIUm13Ukc2UlhdUoxeUuS8U_XuV81CVH1hVQBqVYdZVfxGVlTR',
    7316: 'VoX2VpnxVoYNVlBeVfgGVYfnVQLIVHZdV8ccV0NUUv5_UpakUlumUkcDUlWZUou3UuCUU_OOV7iZVGnHVPpHVYH8VfXPVl4O',
    7323: 'VoozVpwyVor1VlKMVfxWVYmKVQZZVHcbV8mmV0M6UvBpUpVMUlwqUkTxUlV_UokxUuAmU_GtV7geVGj2VPnKVYGiVfVzVl82',
    7330: 'VoS2Vpj0VoVRVl80VffGVYdZVQLSVHXeV8bqV0JKUv1vUpSMUlmTUkPVUlLRUof5Uu1OU_9yV7ZdVGauVPiSVY6gVfRjVkxJ',
    7333: 'VoLDVpaZVoQLVl0BVfZzVYUiVQEgVHN2V8TLV077Uuu0UpEiUlbAUkA5Ul8IUoNhUtoLU-tKV7JrVGJUVPUbVXvqVfIUVkqj',
    7337: 'VoHrVpWHVoREVl2WVfgcVYdDVQQAVHZ6V8gXV0IsUv2oUpMgUlgCUkCjUl6HUoLrUtgIU-pWV78OVGG8VPISVXtmVf6zVkpR',
    7344: 'VoJwVpYQVoRCVl1ZVffOVYbIVQPJVHYBV8hIV0K0Uv5xUpPpUllfUkGTUlDAUoOEUtnPU-ozV7EYVGCJVPN7VXoJVfB7Vkk-',
    7351: 'Vn_YVpJKVoAVVkspVfQzVYSOVQBfVHPtV8UBV0CQUuvXUpJJUlZdUkAtUl0BUoI5UtXAU-foV6vPVF-RVOzpVXW9VemDVkQe',
    7358: 'Vo2XVpHNVoHaVkt3VfZkVYSiVQJHVHNdV8Y7V05hUuulUp7tUlV8UjyLUkwPUo2yUtS4U-S2V6rhVFpVVOxDVXOnVekLVkN0',
    7365: 'VnqzVpELVo6wVku5VfTbVYYIVQHOVHWZV8YVV0FZUuujUpGDUlSZUk1SUkqNUo4HUtJhU-QgV6jbVFmlVOrOVXL0Veh5VkIN',
    7372: 'VnYBVoqPVnubVkZgVfKXVYJHVQCuVHLBV8WEV04jUur4Up29UlJeUjj5UkZWUnf3UswiUzwyV6EeVFGPVOJyVWtmVeA_Vjwt',
    7379: 'VngVVp24VnzOVkiRVfLYVYOWVQBrVHPfV8VuV0B9UutcUpBQUlPGUjtxUkhJUnpRUt3tU-3HV6OnVFLwVOUeVWwtVeLrVjya',
    7380: 'VnfsVoxCVn_HVkenVfPYVYMnVQGtVHOLV8aiV098UuxPUp8hUlS5UjrAUkiyUnmzUt3TU-1SV6MBVFL-VORJVW-7VeJWVk33',
    7386: 'VnUBVoqpVnrKVkaCVfGOVYIsVQ7oVHKDV8R1V042UumHUp1wUlEoUjiVUkTSUnchUsoHUzrUV63SVF7TVO7JVWjFVd_hVjnS',
    7393: 'VnH8VoeeVnisVkQkVfB4VYAoVQ33VHBOV8KXU_ukUud5UopeUl3YUjRiUkHZUnK9Usd1UzYLV5v_VErhVO0VVWUQVdx5Vjbt',
    7400: 'VnDuVohrVnhuVkYxVfF7VYOXVQBfVHSTV8V0V0A9UumYUp36Ul9qUje8UkJeUnTGUsavUze1V5qRVEttVNv3VWThVdp-VjZ-',
    7407: 'VmyhVoJTVnTKVkCCVf26VY2zVP_qVH81V8K8U_sHUubjUokUUkziUjHNUk58Un3rUsJcUzCsV5WUVESaVNYbVW3LVdRMVjBO',
    7414: 'VmxGVoRiVnS0VkJ_Vf0WVYARVP-CVHFgV8ImU_-CUuaVUosJUkyJUjObUk3cUn9vUsIPUzHKV5WaVEVRVNawVW4rVdW3VjBv',
    7421: 'VmruVoGNVnR5VkDaVf3HVY7hVQ3gVHF0V8PMU_zZUufpUopIUkzUUjH0Uj-CUmzHUs6AUz1hV5FWVEG8VNITVVvQVdGKVj6y',
    7427: 'Vmb0Vo4CVn7vVj_xVelJVXvhVPlqVH1TV86NU_n4UuNtUodVUkhwUj50UjiBUmm1Urp6Uyo7V4xNVD-3VM-JVVbgVcz9VioH',
    7428: 'VmW8Vo0eVn7SVj-lVendVXvjVPorVH1AV88JU_lFUuOHUoa9UkhjUj0bUjiVUmgmUrqZUyiCV4z_VDu1VN1tVVWxVd23VimS',
    7435: 'VmaSVo5IVnDpVk7TVewtVY5nVP-WVHFHV8LRU_-9UubNUooVUksuUjDKUjq5UmrHUrtKUyptV4xOVDyCVMwUVVXaVcu0Vil7',
    7442: 'VmRTVnvjVn7MVjyLVeq-VXvkVPt3VH0dV8AYU_hZUuMdUoSCUkbuUir8UjZbUmTbUrfmUyUaV4nYVDgLVMpOVVJ0VcnkViYr',
    7449: 'Vm8fVnlzVmtwVjtVVegJVXw4VPnAVH58V87kU_nnUuJnUoWzUkVqUis0UjOZUmPsUrQSUyNPV4WrVDXaVMa5VV9YVcazViOk',
    7456: 'VmCAVnhDVm-5VjroVeptVXxgVPzbVH8_V8LZU_s7UuW_UoZZUkg3UiqaUjTZUmJ9UrPCUyCbV4QbVDMKVMSEVV2GVcVHViOG',
    7463: 'VlrbVnTdVmcvVjcQVeRJVXgoVPaSVGuCV7zPU_d3UuBEUoN0UkN2UifkUjCPUm7-Ur8dUx-jV49cVD42VMANVUhfVcD8Vh_R',
    7470: 'VluWVnSXVmkjVjgsVecXVXnyVPmgVG_NV88oU_iuUuK-UoRTUkV2UijNUjI6UmAjUrARUx_pV45zVD2tVM1MVUeqVc1CVhyk',
    7474: 'VlsqVnV4VmggVjgKVeXWVXmmVPiHVG_7V85UU_jRUuI3UoRSUkRdUihiUjEuUm8AUrA4Ux-SV4B6VD4FVMC7VUiYVcE-Vi0s',
    7477: 'VlqpVnSvVmjqVjhoVeccVXoCVPlQVGyzV83lU_blUuAcUoETUkFnUiROUj0-UlsrUqxoUxjSV3yoVCqGVL-VVUVGVc3zVhuJ',
    7484: 'VlMkVn1sVmIwVjNQVeIXVXc4VPZ7VGu1V7zEU_aoUu5yUoDdUk8mUiNYUiqTUlkHUqeOUxVqV3ZUVCYjVLYCVUBbVbdRVhZR',
    7491: 'VlZ7Vn8RVmW1VjTaVeWCVXiTVPnTVG-yV8BtU_hMUuJOUoHpUkJAUiNOUiwmUlfBUqgxUxNaV3aEVCQsVLZQVU7HVbgSVhaC',
    7498: 'VlFAVmzPVmBhVjI0VeAgVXVgVPQsVGnaV7rXU_VEUt_EUo8eUk2AUiHIUiiGUlahUqTfUxIfV3NIVCJYVLMGVTx_VbSbVhKu',
    7505: 'Vl9GVmnhVmCnVjCkVeGaVXU6VPYuVGmtV7zBU_T5Uu4cUo3YUk3yUi8eUiflUlOoUqMgUx4hV3BsVC4pVL78VTkUVbCTVhB9',
    7512: 'Vl6UVmttVmCNVjKGVeHrVXbuVPZeVGssV7x9U_VWUt-aUo1iUjwEUi2sUiTzUlF_UqB0Uww3V32iVBwEVL2kVTcMVbEFVh7f',
    7519: 'Vkk0VmQxVlqxVixiVd_GVXK7VPNrVGhwV7rJU_PLUtx-UnzcUjthUh-ZUiOfUl9yUq0gUwn2V2ngVBi-VKggVTKMVamdVgno',
    7521: 'VkpOVmT7Vlw4VixXVe26VXGoVPNqVGbrV7p1U_HMUtuCUnq8Ujp3Uhq0UiKDUk_WUp-BUweoV2oeVBeoVKl9VTKCVasSVgpA',
    7526: 'VkrsVmarVm0NVj6KVeBTVXTVVPY8VGoHV7x-U_RZUt-OUnx9Ujs4UhtGUiJpUk-KUpwOUwZ3V2iSVBVoVKejVTAoVaoVVgir',
    7533: 'VkfPVmSSVlowVi-eVd-6VXN1VPMIVGjtV7oVU_PUUtsrUnwfUjl0UhtUUiCCUk_0Upo4UwaAV2a6VBXKVKXWVTCFVaiqVgj4',
    7540: 'VkOsVm7dVlfXVilfVdwMVXCaVPMEVGc5V7pyU_HzUttHUnmdUjhtUheEUi39UkenUpXxUw7YV2DtVB1zVK8UVSlGVaLBVgMY',
    7547: 'VkP3VmGOVleEVitMVduKVXJfVPJhVGiYV7mYU_NRUtovUnrGUjczUhiUUh-LUkiXUpTdUwA4V2AcVB2fVK6uVSkFVaMBVgLY',
    7554: 'VkCwVlybVlUlVidJVdo0VX6rVPFjVGXbV7jwU_DZUtn6UniHUjbcUhaRUhykUkbUUpQhUw3fV24MVAxHVJwsVSZsVa3dVg7i',
    7561: 'Vk0hVlw6VlPEVifAVdmiVXAbVPF3VGa0V7gGU_BOUtdeUnZBUjLWUhKEUhd-UkGLUp57UviUV1n9VAaGVJhpVSE_VZvTVfsV',
    7568: 'Vj_5VlrcVlMDVic1VdkmVXAJVPGGVGdYV7lHU_ILUtlFUnhtUjT5UhSdUhisUkNDUp5yUvo8V1l0VAgNVJfMVSN0VZuuVg0L',
    7575: 'VjfyVlWRVl6YViKzVdaRVWzrVPAaVGUuV7iTU_BJUtigUnZCUjNiUhEdUhXoUk0sUopPUvIfV1LXVA4fVJC2VRmbVZS7VfUT',
    7582: 'VjjFVlf9Vl6_ViR8VdWvVX02VP2tVGTaV7YDU_8sUtYdUnYVUjFwUhH3UhSUUk62UollUvPAV1I_VAB8VJArVRr_VZSMVfYC',
    7589: 'VjeqVlUcVl8ZViLtVdd8VW-AVPB5VGSDV7feU_5dUtdTUnSNUjI6Uh8lUhT1UjyzUolLUvGcV1HVVA3hVJ7IVRlWVZMBVfSm',
    7596: 'VjERVlGEVkpDViC0VdMMVWtmVOy-VGMyV7R9U--HUtLNUnG5UiwXUgsOUh0TUjbUUoGaUusEV0q1V9eZVIjbVRL8VZ1LVf4a',
    7603: 'VjKpVlDRVktBVi9tVdRsVWvMVP6lVGTDV7f6U_7vUtbUUnQmUjA0Uh04UhD1UjjLUoOtUuyfV0ttV9kQVIjxVRRbVZ0JVfCT',
    7610: 'Vi_nVk-JVkcJVhzBVdERVWl6VOy0VGLFV7WNU_1QUtTYUnJpUj12UgrxUh1EUjTgUo9VUucfV0bSV9JFVIQ1VQ-CVYihVeln',
    7615: 'VinLVkqmVkQCVhsLVd4NVWfzVOp4VGGiV7NcU-ybUtKBUnEJUisrUglyUgsUUjNaUn-fUuWdV0R6V9DDVIGcVQtnVYaOVefD',
    7617: 'VizHVkylVkZnVhy0Vd9nVWhdVOpxVGEPV7LBU-u6UtGfUnA4Uiq4UgjxUgrIUjOgUn-ZUuaIV0QzV9IeVIGMVQ-fVYaUVemb',
    7624: 'ViuwVktDVkdEVhybVdJYVWmlVP1KVGLiV7ZbU-_HUtT-UnF2Ui-hUgklUgxvUjJ-Uo0aUuQZV0P3V96FVICNVQpBVYWwVefM',
    7631: 'ViWmVkdmVkG2VhlFVc-7VWbJVOjJVGB0V7FYU-pgUt8GUn1EUicHUgUKUgWgUj15UnZHUu5aU_xAV8lXVHldVQRHVY70VeH_',
    7638: 'ViciVkZtVkLrVhiDVd5TVWaiVOtLVGDGV7SAU-twUtM1Un5cUio-UgWyUggeUj1OUnfpUu4IU_-5V8jqVHkoVQPeVY2cVeGQ',
    7645: 'ViQYVkY8VkDKVhiwVc_iVWc_VOogVGFbV7MZU-uPUtDqUn2uUidjUgQeUgT6UitzUnSAUtvHU_p7V8YtVHe9VQFeVY02Ve7S',
    7652: 'ViCdVkFMVk0vVhSmVcqOVWOTVOeCVG1wV7CcU-gxUt3YUmqnUiRiUgBBUgE3UidMUn9oUtegU_UJV8JlVHIZVQ2tVXhRVdzI',
    7659: 'Vi8JVkEYVk19VhVKVcvfVWV2VOngVGBsV7OtU-suUtH7Un0qUietUgKnUgOtUihdUnGIUtbSU_VOV89ZVHFtVPsCVXfDVdpu',
    7662: 'ViAGVkCZVk19VhSBVcuiVWRWVOmXVG8MV7NkU-pFUtFdUmyiUicsUgGaUgMwUieGUnEiUtZ8U_TRV87ZVHCGVPp0VXYXVdj_',
    7666: 'Vhw3Vk3DVjnzVhKMVcfHVWJHVOVsVF-nV75kU-eeUsz4UmoKUiKiUg7LUg51UiVqUmySUtQcU_AxV7-VVGwyVPfwVXKPVdbt',
    7673: 'Vho6VjssVjlhVhCkVci6VWFkVObvVFz9V7CPU-cSUt2LUmjzUiNsUg0UUg6MUiMeUmxpUtFJU_7pV7ndVGqOVPRqVX9tVdNI',
    7680: 'VhlWVj_BVjmGVhO2VcksVWSIVOeyVG8vV7DTU-l6Us_AUmnYUiEvUf-6Ufu1UiFoUmhfUt7cU-w-V7ifVGkkVPRFVXCDVdQq',
    7687: 'VhPWVjW3VjQ_Vgx9VcSRVW3bVORFVFrUV74uU-WCUsvvUmaSUi9KUflHUfkHUhyoUmROUsmJU-ZyV7IlVGIXVP1FVWk1Vd37',
    7694: 'VhPPVjdqVjS4Vh2aVcUHVWBIVOUGVF-XV79dU-gwUs_zUmlYUiFNUfubUfopUi20UmTJUslpU-ZEV7ChVGGdVOuKVWjZVcxR',
    7701: 'VhN7VjYMVjPnVg-JVcQyVW5vVOOHVFrvV6_zU-UqUspaUmY8Ui2SUfikUfd0UhvfUmIwUshHU-PZV7B8VG7EVOudVWaRVcxx',
    7708: 'Vg-tVjCuVjACVgm8VcJWVVzxVOLwVFmzV6-pU-PQUsmbUmPgUhyJUfW0UfTxUhejUm7sUsMvU-D8V6q9VFuxVOVkVWJpVcYY',
    7709: 'Vg-iVjA6Vj5fVghTVcCvVVvAVOFoVFjiV6wdU-OGUskSUmQdUhxZUfY-UfTlUhjiUm7VUsTaU-C8V6xjVFtLVOd4VWHrVcek',
    7715: 'Vh0cVjKlVjDGVgwrVcOCVWAEVOQ-VFyoV72HU-YdUsmOUmUfUht4UfWWUfJqUhb_UlwdUsIzUz_tV6nRVFlcVOWaVWHLVceH',
    7722: 'VgjJViuMVivOVgUQVc6HVVnFVOEBVFf-V6yBU-MJUsm1UmMiUhvWUfPNUfLJUhSEUltuUs4pUzt6V6V4VFWEVOAtVVxbVcG6',
    7729: 'Vge0Vi-aVitDVgcNVc56VVv5VOCRVFmWV6ujU-QkUsg9UmOSUhmsUfNkUf9SUhMGUlf5UrwdUzdLV6I6VFIRVNzeVVoXVc5G',
    7736: 'VgfyViuiViw3VgY1Vc7yVVqnVOEKVFh7V6vIU-K4UsfcUmGyUhlLUfG9Uf7HUhF-UlcfUrt4UzatV6IFVFGDVO1dVVn4VcCX',
    7743: 'VgC-ViaNViakVgKLVbwMVVjEVO6BVFdJV6pSU-H1UsZ7UmBpUhc8Uf6YUewEUh0EUlLcUrWTUzG9V5rKVEv5VNXGVVPvVbia',
    7750: 'VgHLVidKVidkVgNjVbyVVVmiVO7qVFgJV6p_U-IGUsX5UmAEUhWZUf2ZUenSUgxPUlAdUrSFUz40V5oKVEj7VNVkVVG4Vbje',
    7756: 'Vg8SViaDViYIVgNQVbwXVVozVO8BVFk2V6rOU-MdUsZ5UmF1UhZLUf7bUer8Uh05UlF8UrVsUz92V5pzVEnPVNToVVH4VbcM',
    7757: 'Vg7rViPxViUhVgAFVbraVVbQVO40VFYAV6pUU-DJUsZgUm7pUhbhUf1UUeuJUgwMUlI7UrQ8UzAoV5khVEnhVNQ7VVGDVbaf',
    7764: 'VfqSViHaViHrVg8XVbjQVVdHVNzcVFa5V6hQU-BvUsMqUm0UUhHnUeozUeSsUgbOUknLUr1YUyf0V5LsVEJDVN3XVUtsVbHj',
    7771: 'VfuLViBuViLbVg2oVbnFVVXsVO1-VFVnV6nMU-9bUsU_Um0MUhRoUeq5Ued6UgcHUkvqUr1bUykuV5MUVENFVN6hVUxaVbOn',
    7778: 'VfWlVh_oVi2wVfwtVbZCVVTrVNtjVFUwV6fjU-AgUsOVUm1WUhKUUeolUeSoUgVVUkgnUqoxUyQRV4_4VD-RVMeYVUXcVaux',
    7785: 'VfYLVhwUVi3nVfrbVbYPVVN5VNqOVFLNV6Z9UzztUsEwUloWUh8_UeZRUeGUUgHnUkUJUqe5UyDlV4tCVDnMVMZGVUKsVarx',
    7792: 'VfT7VhvSVi1tVfsyVbazVVS4VNwrVFT9V6hPU-68UsMVUlutUhEkUedAUeLSUgJkUkaRUqfKUyM5V4uNVDxeVMaWVUVbVasf',
    7799: 'Vf1aVhYdVhiAVfe3VbLXVVJUVNlsVFNfV6XZUz_nUs9lUljrUgxEUeKuUdv0Ufv-Uj_iUqAWUxiuV4OiVDJSVM7fVTy9VaTa',
    7803: 'Ve_BVhTKVhgvVfX_VbKUVVCcVNkVVFGUV6WVUzveUsAeUlgIUg_lUeKXUe1WUfxkUkAiUqC7UxtZV4OAVDR6VM4mVU0hVaQh',
    7806: 'Vf7eVhWvVhl6VfYOVbMLVVCTVNn3VFIEV6bNUzzZUsH0UlknUh5SUeNUUe4bUfyEUkAoUqB6Uxs9V4NpVDQEVM6eVU19VaUb',
    7813: 'VeuFVhSYVhZuVfY6VbE5VVETVNgUVFLbV6W0U-2AUsChUlq9Uh1AUeS9Ud-SUfzmUk0mUq72UxdXV4DAVD8FVLsQVTkOVaBd',
    7820: 'VenNVhDYVhVMVfKnVb9mVV0MVNZrVF49V6LDUziDUrzWUlQVUgl7Ue1CUdhvUfabUjlaUpnrUxNvV3yWVCvOVLfxVTVwVa2e',
    7827: 'VefXVhGIVhTFVfT8VbEaVVEbVNk8VFMEV6XrUz-sUs9AUlgeUgteUeCsUdmfUfh0UjnaUppgUxPHV3x7VCxnVLcxVTaMVa04',
    7834: 'VeMxVgvcVhB_VfAGVb0GVU_nVNZ7VFAUV6OwUzq7Ur_qUlUGUggrUdylUdUBUfMfUjOqUpS9UwxDV3YGVCQnVLElVT3bVZgC',
    7841: 'VeL8VgtBVh8nVf4VVaxRVUuAVNTwVF3GV6L4UzkzUr-SUlRHUghcUdwFUdVsUfIlUjQUUpLuUwyZV3Q2VCRsVL5uVT49VZXc',
    7848: 'VeFKVgtVVh6DVf9BVaxbVU_kVNVxVFCDV6NjUztoUs08UlYoUghAUe01UdSWUfMRUjJhUpNBUwp3V3PbVCIDVL5JVSzEVZYC',
    7850: 'Ve6zVgfaVh1TVe_OVawoVUvNVNXgVF7UV6QLUzpPUs2rUlUHUgjZUdx1UdTqUfGMUjIiUpFdUwkZV3GLVC9GVKwRVSmUVZNQ',
    7855: 'Vd_aVgXvVgwMVes1VantVUjDVNLuVEuCV6BPUzW-UrmtUl8_UgPIUdZfUd8kUeuJUi-nUou-UwUDV2zuVB-XVKjmVSgZVZEk',
    7862: 'VdouVgW5VgnBVevHVaklVUsgVNOfVF6UV6HoUznXUruIUlPLUgVZUdnlUdCHUf2SUi-pUozmUwQbV2yAVBtnVKcAVSZ3VZ4v',
    7869: 'VdnIVgLoVglqVelbVaikVUidVNLlVExjV6E4UzbqUrpQUlCQUgP5UdZsUd4FUeqdUirXUonGUwFpV2nLVBgkVKSUVSJiVYy9',
    7876: 'VdTQVg9aVgUzVeb4VaV3VUaYVNA_VErzV659UzX5UrgZUl6fUgEnUdRMUcuCUeeeUieLUoXaUw2IV2UXVBTqVK7wVS7kVYcw',
    7883: 'VdVwVgBTVgaNVehVVadHVUkJVNLIVF1MV6G0Uzi2UrpqUlF9UgK5UdVwUctkUef7UiYGUoW3UvvJV2UKVBMDVKCFVS5TVYnN',
    7890: 'VdDAVft4VgJZVeNUVaO9VUQ-VN7GVEklV62qUzQCUrdSUkzhUg86UdDWUcg-UeJpUiJFUo6TUvdGV21KVB22VJkiVRmtVYM1',
    7897: 'Vd2JVfprVgApVeNgVaHiVUTdVN2cVEp8V5_rUzWFUrbzUl4-Ug73UdKxUcemUePlUiE9Uo91UvUFV1-wVArFVJcoVRXtVYAR',
    7904: 'VdATVfpwVgKfVeODVaRPVUT8VNAMVElqV63pUzOZUrbQUkv9Ug3QUd7FUcagUeDEUiC0Uo0LUvV0V1xPVAu8VJe7VRbRVYFK',
    7911: 'VcefVfTRVftPVe76Va4uVUIkVMwYVEh4V5uIUzMIUrQRUkrSUfrTUc_1UcI3Ud_IUhrYUnjKUv7AV1ahVAWoVJESVRE_VXpS',
    7918: 'VciTVfQJVfytVe7VVaDGVUMhVN5SVEmzV63zUzRpUraRUkuFUfxEUczPUcHoUdvAUhlEUnapUuyoV1TKVAM5VJC2VR88VXuD',
    7925: 'VcSkVfEWVfikVdvOVZyWVU7cVMrRVEZXV5svUzIEUrRvUkp2UftBUcwxUcGVUdsEUhj-UnTqUuuvV1G0VAE3VIurVQyRVXXZ',
    7932: 'VcHmVf6MVfbtVdsDVZtlVU68VMmXVEXFV5mSUzE5UrJRUkjAUfinUcq1Uc3wUdkHUhU1UnJsUuarV13hV9t9VIh5VQbPVXJ-',
    7939: 'VcMOVf7_VfkPVdvkVa2VVUA6VMwwVEZQV5tsUzCMUrMOUkcgUfhXUcfRUc0OUdXqUhR6Un8VUuapV0y7V9x0VIfDVQjAVXOK',
    7944: 'Vc51Vex6VfTCVdjXVZpJVU0aVMlWVEUBV5nDUzBsUrK2UkfVUfhNUciiUb_WUdYVUhNKUn4UUuT6V0oIV9l7VIPgVQTyVX4t',
    7946: 'VbtnVeoQVfIYVdfdVZi-VU1NVMieVEXIV5kuUzDxUrFDUkeJUfYaUce1Ubp1UdRQUh8OUmyQUuDmV0gkV9XcVIJGVQJ5VW-y',
    7953: 'Vbx1VeioVfMyVdayVZnxVTzBVMnlVET6V5pcUz8gUrHxUkV-UfXAUcR5UbiKUdAAUgz3UmfRUt_yV0PVV9JUVI6IVQ6HVWtS',
    7960: 'VbovVeicVfDAVdYKVZd4VTvaVMdMVEQfV5hTUz9KUrDhUkatUfXWUcZjUbmkUdKlUh4TUmpjUu90V0X4V9SNVI9QVQDTVWrp',
    7967: 'VbXXVeOoVf2DVdLkVZWmVTnHVMZFVEJUV5cyUz0XUr6KUkORUfLJUcIZUbUNUc--UghZUmQYUtgVV06XV8wyVHmWVPjTVWXZ',
    7974: 'VbRvVeLgVe_DVdJxVZWbVTmnVMaAVEItV5d8Uy-eUr51UkKtUfIxUcDPUbRrUcuDUgfWUmI4UtfMU_zKV8xpVHf0VPnLVWTt',
    7981: 'VbCXVe9sVenGVdCMVZMPVTkHVMUcVEKuV5bKUz3aUr56UkQ-UfIqUcJ7UbPUUcxzUgYvUmI2UtT3U_trV8foVHTLVPQ-VWD1',
    7988: 'Vb4tVdzQVejXVd1cVZK5VTZLVMROVE7-V5VOUypEUqxIUk6MUf4yUbwEUb87UcVeUgFIUlqUUt92U_RwV8MgVH52VP8_VVu_',
    7991: 'Vb5HVdzzVel0Vd3aVZMRVTcrVMVcVEE1V5cfUyyVUr5ZUkI1UfGXUc6SUbIzUch0UgOKUl-gUtGCU_bCV8SYVHDzVPEiVW27',
    7995: 'Vb2SVe3iVeg3Vd7bVZGlVTgFVMPnVEHBV5WTUy_1Uq-cUkJfUf8zUc7YUbB-UciZUgJnUm1SUtFqU_fNV8X2VHIeVPMaVW5d',
    8002: 'VakeVdfYVeSQVcqLVZ9JVTTMVMNbVE8fV5X5UytcUq-OUk9VUf3rUbt6Ua-TUcJpUfyFUlXBUslOU_5FV7xZVGlzVOnhVVf6',
    8009: 'VadjVdeoVeJXVcmNVY-eVTN5VMBeVE1OV5KpUymXUqoqUk3WUew7UboYUatEUcF-UftRUlShUsiUU--_V7wAVGe3VOnnVVX2',
    8016: 'VabTVdajVeKmVcnrVZ3ZVTSOVMIZVE7vV5RzUysuUqvgUk9qUf0bUbvTUaz6UcNuUfxjUlalUsjDU_53V7reVGgFVOeIVVVV',
    8023: 'VaHsVdIvVe6dVcYqVYunVTEYVM8IVDurV5FGUya4UqeIUjnXUeg5UbRnUaZCUbshUfXMUl2cUsKcU-aAV7ViVGCIVOKyVV5C',
    8030: 'VaBpVdI8Ve0uVcbDVYs1VTLJVM9rVE44V5KiUyoKUqlYUk0OUemOUbeyUacKUc0vUfWeUlA8UsHuU-gvV7UIVGJqVON0VVDn',
    8037: 'VZ-fVc-1VdtDVcKOVYmiVT9AVM9TVDyjV5OUUyk7Uqr8UjyCUeqDUbWuUaaVUbnhUfMaUkp3Ur_cU-EXV765VFsNVNyMVUpG',
    8038: 'VZw5Vd11VdolVcNXVYgnVTAPVM15VDxYV5E0UyhQUqfmUjvMUef8UbV7UaQcUbneUfEJUkqSUrv4U-GPV71mVFuGVNx1VUr2',
    8044: 'VZqkVcz7VdhbVcGSVYXWVT0tVLsAVDmhV52UUyWhUqV5Ujm0UeWMUbN1UaJHUbfOUf7bUkgrUrodU-54V6x2VFh6VNpJVUcf',
    8051: 'VZriVcuVVdo8VcIEVYitVT7BVM4SVDv3V5HbUyezUqjEUjsmUeiJUbS6UaSpUbjgUfEbUkl6UrsZU-9YV6xYVFloVNnOVUiK',
    8058: 'VZWJVcgJVdWaVc6DVYUgVSyrVLtbVDkJV534UyR4UqQXUjZlUeKjUb3jUa1jUbHAUeoeUkGHUrS7Uzg9V6aMVFI7VNUZVUI5',
    8065: 'VZLlVcTrVdL4VbyyVYMdVSvWVLrWVDnGV56FUyXyUqVuUjhKUeOqUb9TUa1zUbJtUejgUkFsUrIBUzdHV6N2VFDgVNG7VUC_',
    8072: 'VZKBVcQCVdMqVbwdVYQfVSuBVLwgVDmbV5C3UyXvUqc9UjhDUeUrUb7vUa6nUbFZUemgUk8WUrJNUzT_V6MmVF45VNEMVU3_',
    8079: 'VZ1xVcG4Vd5VVbnSVY8YVSj-VLcvVDalV4skUyKiUqFfUjTAUe7NUavEUZkMUb0PUeNWUjujUqwCUzDKV5-qVEoWVMujVTnt',
    8085: 'VYtoVc77Vd0bVbjSVYAGVSmSVLlbVDjTV54qUyXLUqV-UjfwUeM7Ub25UZuDUb2NUeQyUjpZUquEUz3RV5w3VEd-VMqxVThW',
    8086: 'VY_kVc7VVd9DVbkLVYHCVSl6VLp2VDeiV552UyQ8UqUjUjYXUeLSUaylUZvNUb0PUeTjUjr9UqxWUz8IV5yyVElKVMsiVTpl',
    8093: 'VYm0Vc1LVcwNVbemVY3xVSgYVLcuVDaPV4uYUyKjUqGVUjQrUe4zUaoEUZcuUaowUeA7UjagUqdpUyqlV5g0VEPVVMbvVTU3',
    8100: 'VYYTVbikVcj8VbNBVXvGVST6VLVpVDQiV4qaUyDaUqEMUjKsUe2iUahxUZYYUahSUe24UjRcUqQrUyfeV5NcVEC2VMEoVTEQ',
    8107: 'VYbxVbrFVcqrVbXRVY3YVSdvVLgNVDaKV4z1UyK1UqIpUjMjUe2_UafUUZWeUacVUe1EUjMpUqU2UydLV5W7VEDNVMRbVTIr',
    8114: 'VYDOVbUyVcTRVbEZVXkSVSOZVLOIVDOJV4jrUyAMUq51UjDXUdq0UaUVUZDoUaO9Udf4Uj4uUq1KUyJAV51kVDuZVL-AVS-8',
    8121: 'VY8IVbLPVcRWVb75VXl-VSK7VLTFVDMmV4rJUyAbUqDaUjDnUdxtUaSbUZIxUaHsUdfiUivFUpyxUy3nV4w4VDfiVLs_VSqh',
    8128: 'VY1HVbNJVcKZVb9LVXePVSLRVLKRVDMwV4hkUyAUUq4KUjEbUdpxUaUzUZCPUaL4UdZlUixZUpseUy3JV4o-VDb6VLl0VSh_',
    8132: 'VXu5Vb5cVcDiVawHVXavVSA2VLKXVDEiV4k4Uy3GUq67Uj54UdnkUaGBUZ40Ua0MUdLEUiYnUpZdUxfiV4TVVDDfVLP0VSOQ',
    8135: 'VXmvVa_VVc8lVasbVXWzVS6lVLFdVD9oV4d1UxyQUpzuUi-QUdhDUaD2UZ1tUa2VUdNTUieqUpdTUxm0V4VEVDGUVLMLVSMV',
    8142: 'VXkFVb7OVcAqVb1MVXcDVSIvVLLlVDLLV4hSUy4yUp-BUj1oUdc0UaAIUYtuUZwqUdCFUiVeUpVtUxezV4UpVDE7VLUFVSPx',
    8149: 'VXT0VamMVbuEVaibVXMEVS3LVLBOVDCKV4dNUy1YUp-KUj13UdcUUa8jUYqgUZrtUd2fUiMKUpF1UxRiV47zVC-NVL4SVS9K',
    8156: 'VXJCVae9VbmiVaaAVXFsVRwtVL5mVD4KV4YUUxw5UpvfUiutUdWZUZzVUYhqUZbUUcrvUi04Uo-yUx1YV3s-VCaPVKrRVRpJ',
    8163: 'VXIgVahfVblfVaegVXDxVR-oVL2CVD6gV4TKUxxOUpqLUixHUdTIUa3NUYhoUZlZUcugUiDHUp3NUxFzV3y8VCnqVKwNVRzh',
    8170: 'VW_1VaKAVbaBVaOBVX9MVRpXVL1RVCzTV4SyUxn8UpnjUijoUdMtUZnSUYX2UZP7UcfrUhpQUon8UwqNV3cdVCLlVKXuVRYo',
    8177: 'VWn3VaGWVbOBVaN9VX0OVRr8VKwdVD09V4M4UxoZUpeOUihsUd9gUZhMUYG8UZFPUcMuUhdBUoUUUwcvV3N0VC94VKO7VRPa',
    8179: 'VWsSVaFpVbQyVaLkVX2OVRqyVK-ZVD32V4TTUxuuUpooUiqYUdLGUZqmUYQvUZOZUcVYUhm4UoabUwlkV3QdVCHfVKPMVRWa',
    8184: 'VWlQVa4fVbKZVaBOVWzYVRiRVKxtVCyrV4T3UxqpUpqCUinrUdNZUZoPUYSxUZLMUcV-Uhh2UoYFUweKV3KUVC7fVKFGVRK-',
    8191: 'VWR_VZwaVb6UVa4AVWojVRcIVKnhVCrjV4G_UxgjUpaPUiZGUd3HUZURUY4HUYxZUc3tUhBuUo4gUw5sV2uFVBbNVJt4VQs3',
    8198: 'VWURVZw4Vb7cVa4DVWoWVRc9VKmgVCrbV4GIUxhcUpb8Uic5Ud5fUZZVUY7mUZ3BUc83UhMYUo9dUwJlV2-ZVBsEVJ_LVR8h',
    8205: 'VWCGVZfPVazfVZw4VWm6VRXbVKpCVCqFV4KmUxgmUpeoUiZ0Ud6AUZRbUY3LUYqJUbzOUg_bUnuLUvrtV2eHVBLPVJdPVQfs',
    8212: 'VVzqVZWBVaimVZlyVWTfVRMtVKW9VCfHV41PUxVKUpKaUiMbUcmgUZEPUXiqUYc-UbcSUgoTUnXnUveeV2IwVB7aVJKDVQRw',
    8219: 'VW2JVZSIVaovVZk4VWcpVROGVKibVCjbV4GEUxbTUparUiTrUd1tUZMNUX-aUYlXUbu8UgxgUnoRUvoWV2WxVBH5VJTRVQZK',
    8226: 'VVcFVZD1VaTLVZaWVWMhVRIhVKVTVCfEV42nUxU-UpJfUiH_UcgHUZ32UXVxUYKtUbKtUgSLUnEpUvHQV20EVAmDVJ1GVQ4D',
    8233: 'VVaiVZ2aVaPvVZQ6VWIXVR8-VKRuVCX6V41AUxPJUpKaUiEtUci-UZ1bUXYaUYJuUbLRUgRAUnCHUvGvV1xuVAoOVIzoVQAh',
    8240: 'VVNJVYy4VaI0VZNCVWFzVRAKVKUKVCcqV47lUxYPUpTaUiP0UcruUZ9NUXeWUYLTUbLhUgJSUn5GUu_DV1kQVAPiVIjHVPmW',
    8247: 'VVDVVYo9Va6qVZD4VW1-VQzYVKC6VCLcV3mlUxClUp2uUi11UcPvUYo4UXDAUY0pUaxYUg1uUmi9Uum9V1MYVACJVIN7VPZp',
    8254: 'VVAwVYjHVa9mVZC-VWBTVR30VKQ-VCV0V42DUxN6UpJxUi9aUcebUYtWUXPdUY3lUb76Ug3lUmtmUuoLV1Y3VAFVVIXSVPdt',
    8261: 'VUrZVYXqVZu5VZ6JVVzhVR01VKFtVCTnV3tbUxKzUp6wUi3gUcMSUYhgUX0zUXnbUaezUfj5UmNiUuQHV14IV9uKVI8PVPIO',
    8268: 'VUkjVYFeVZk7VYnnVVoOVQi1VK6QVCD5V3o4Ux8OUp54UhvvUcMGUYYXUW_vUXdIUabBUfX9UmGGUuDNV0v3V9hhVHwiVP84',
    8273: 'VUh8VYHTVZoGVYw3VVydVQtpVKIOVCOBV3xoUxFzUpAiUhzBUcO1UYYEUW_MUXamUaa2UfTSUmFZUu9GV0vVV9eOVHyxVP6Y',
    8275: 'VUeMVYK2VZhcVYukVVp7VQrAVK9iVCOKV3tdUxLtUpCqUi9DUcVQUYnwUX8kUXp-UahqUfeVUmJoUuEEV0w0V9dDVHwsVP13',
    8282: 'VUTKVY4IVZYWVYhkVVg5VQdnVJ-1VC7QV3dHUw_xUotTUhkyUc6JUYLkUWjwUXOsUaH4UfGcUlvcUtvyV0WGV9M6VHY2VOoM',
    8289: 'VUBlVXtHVZNTVYaPVVcpVQckVK10VCA_V3jpUx5fUo_0UhqMUcD2UYOpUWojUXN_UaJLUfAvUlvRUtm9V0UWV9APVHW7VOdn',
    8296: 'VU73VXrXVZIvVYb4VVZNVQfbVJ-wVCFAV3iAUx9SUoxxUhrvUc6aUYMwUWdoUXIiUa45Uf31UldAUtcsV0BTV90oVHEZVOUh',
    8303: 'VTt5VXUWVZ2pVYCtVVJfVQI1VJn3VBw5V3XKUwtbUoq5UhcOUc0FUY7LUWWVUX0dUZvzUejdUlPbUtF0U_wSV8drVGw4VO5P',
    8310: 'VTqrVXdAVZ3oVYOpVVNPVQWIVJsfVC9VV3dKUx6YUouoUhpJUc2RUYHaUWW7UX8JUZtzUepTUlOCUtKLU_yRV8kCVH1NVODp',
    8317: 'VTgFVXKWVYxhVY8yVVGtVQHoVJmLVBwlV3W8UwsYUol_UhXSUbtJUXzOUWHmUWnjUZbxUeRaUl32UszHU_bVV8PqVGf_VNyj',
    8320: 'VTO2VX5jVYiOVX-cVV6DVQCFVJfmVBuMV3RUUwqsUogxUhUXUbmTUXuYUW90UWhEUZRUUeJIUksNUsn-U_LpV8B1VGOZVNii',
    8324: 'VTJmVX6lVYePVX-1VV2TVQB3VJclVBtsV3PqUws0UohKUhXkUbp6UXyuUWDAUWkkUZW0UeJ_UkwYUslGU_PgV85_VGSfVNdD',
    8331: 'VTRCVXAQVYldVY3FVV94VQGUVJiDVByIV3TrUwuxUojdUhZ7UbpjUXzcUWCZUWmBUZUaUeN4Uku5UspgU_LzV8B1VGODVNiR',
    8338: 'VT2WVWoQVYQkVXjiVUuqVP-cVJWGVBjmV3KaUwhzUoaqUhLRUbfbUXjVUW0eUWSzUZH5Ue0ZUkf1UsQEU_5DV7lbVG50VNFF',
    8345: 'VSwLVWnVVYMHVXnvVUtsVQ6PVJXcVBt9V3MIUwqdUoaXUhR0UbatUXk9UVruUWOKUZ10UduuUkNcUsJeU-tuV7jcVF_hVNJQ',
    8352: 'VSqYVWZEVYGcVXZOVUozVPv0VJUcVBiFV3MPUwj7Uoe8UhMYUbgoUXggUVxPUWIqUZ2wUdlIUkJwUs65U-kVV7T_VFo3VN4F',
    8359: 'VSWeVWQDVX_1VXR-VUYaVPnyVJEVVBbAV36VUwcMUoOgUhG0UbRCUXZ8UVgWUW8cUYlpUdWkUj-EUro5U-MkV74yVFPyVMey',
    8366: 'VScyVWOdVY6cVXSaVUguVPpbVJMOVBbrV3CDUwaDUoR9UhB1UbRQUXTYUVgeUW5IUYnTUdXgUk1XUrteU-QmV7EJVFUDVMr3',
    8367: 'VSX3VWS3VY2NVXXQVUf4VPw9VJMYVBjfV3DOUwiOUoS6UhI3UbQZUXXeUVcvUW5HUYg_UdTKUjveUrlcU-J5V73bVFNaVMeo',
    8373: 'VSEkVW7qVXpFVXGDVUUaVPjOVJGcVBacV3A4UwafUoOsUh9SUbM1UXNMUVXBUVvgUYawUdHEUjpjUrZhU-CuV6tpVFFxVMSZ',
    8380: 'VS1HVVw6VXdhVX78VUMBVPeTVJAtVBXkV34xUwX5UoHdUh2fUbA2UXBeUVEnUVexUYCGUczFUjN2UrFPUzmAV6cdVEteVMGt',
    8387: 'VS2OVVsxVXd9VX0WVUKFVPWSVJ9gVBRnV37aUwWAUoQ8Uh7bUbOJUXKsUVWjUVpEUYUkUd5LUjcxUrJVUzxXV6cjVEzrVMD_',
    8394: 'VRjrVViWVXNjVWx8VU7QVPSoVIyyVBNQV2vKUwPlUo9OUg-QUb4UUX8cUV9IUVZLUY30UcmxUj7KUqwxUzQPV6BjVEUTVLpB',
    8401: 'VRhNVVXhVXNRVWo9VU8lVPK-VI-dVBFKV2vyUwGBUo8IUgpEUb1_UWyZUV6JUVNwUY0tUceGUj72UqslUzS0V6CnVEXhVLvI',
    8408: 'VRQkVVRtVXAoVWn8VU2mVPQHVI_9VBPvV2-ZUwTAUoDgUg_KUb5CUX4vUV5PUVQYUXxIUcaCUizSUqhuUzFYV5y5VEK4VLbX',
    8414: 'VRE3VV9xVW-8VWT_VTqTVP4uVIkPVB1_V2hXUw3IUnv8UgaMUamBUWfzUUm_UV0oUXeAUcCEUih5UqLbUyz3V5dfVE1LVLJA',
    8415: 'VRCmVV6tVWygVWTZVTqcVP7gVIn3VB7fV2mIUwAJUnzyUgg4UanwUWi1UUjNUU-cUXUwUc7GUiU7UqG0UykpV5YeVDphVLF6',
    8422: 'VRDyVVAvVWzMVWVMVTrPVP95VIpHVBAhV2q-UwG5Uo5oUgp1UazHUWtfUUy6UVBmUXmcUcKZUinsUqSMUz3IV5jYVE7NVLO5',
    8429: 'VQuoVUwHVWkEVWMiVThxVP6IVIjgVBAqV2mWUwFvUn_HUglSUaniUWkOUUfAUUxhUXLQUb-EUiG4Uq2IUyUyV5J7VDb4VL03',
    8436: 'VQkeVUgQVWaiVW6CVTY_VOrMVIaLVAv1V2cPUvzXUnr0UgTLUaeMUWT8UUXCUUh5UXETUbjvUi9ZUporUyP0V56LVDWGVKtV',
    8443: 'VQc6VUiJVWVwVWD7VTZ1VP1CVIe-VB8vV2kPUwFzUn-kUgmiUao2UWleUUf0UUwhUXIZUbuDUi8cUprkUyIiV515VDLvVKiA',
    8450: 'VQSVVUQ6VWNhVVxfVTQHVOkrVIUJVAqBV2WfUvtiUnj5UgKVUaSeUWGRUUGxUUQIUWv0UbOwUhkdUpPLUxuWV4eCVCxZVKMj',
    8457: 'VQHwVUOQVWErVVxHVTKhVOnUVISqVAwXV2YjUw0hUnmpUgTpUaVpUWNqUUIjUUVJUWwrUbSbUholUpSqUy0NV4iEVD6zVKRG',
    8461: 'VQLTVULoVWKpVVxyVTRaVOp9VIY_VAxEV2dDUv_hUnpbUgROUaX1UWKRUUHuUUQxUWsrUbNDUhghUpMdUxqLV4byVCuyVKMS',
    8464: 'VQ6QVU99VW6KVVnvVTGyVOkTVIUKVAyaV2dtUw53UnsSUgWxUaXvUWMDUUDWUUMiUWiHUbD5UhRZUp92UxaOV4OeVChhVKBZ',
    8471: 'VPu1VTwjVVskVVVkVS_IVOP0VIAkVAbSV2JmUvkDUnZNUgBYUaGrUW2KUT-cUU3AUWUlUauRUhEPUoopUxNFV41hVCUTVJrP',
    8478: 'VPoaVTxQVVrZVVciVT2XVOaYVIGwVApMV2RXUvzSUniPUgSEUaR5UWKVUU9GUULyUWe2Ub9oUhKHUp0BUxOaV49QVCR-VJu1',
    8485: 'VPgqVTkBVVnpVVRXVT0bVOPZVIE6VAbyV2L2Uvh8UnWIUg3vUa9IUVs_UTpgUTrqUWHVUagJUg-_UoZvUx58V3nXVC9wVJai',
    8492: 'VPFpVTT2VVOgVVERVSj3VOIuVI1TVAblV2E4UvlDUnRwUg8lUa42UVvOUTh8UTpnUW5BUaZWUgmUUoPdUwt6V3bGVB-EVJNn',
    8499: 'VPKKVTOzVVUPVVChVSqeVOKDVIBlVAgCV2QtUvrfUnflUgF9UaGLUVzKUTp7UTpbUW78UaVNUgiPUoJEUwkOV3UvVBpNVJJi',
    8506: 'VP3BVTEdVVDFVU_nVSXyVO4NVHt7VAOJV25BUvZLUnKUUfzjUZySUVibUTWCUTXlUVqCUaAXUgOsUnwdUwQUV33WVBVyVItR',
    8508: 'VOt0VT5_VV4lVUyFVSSLVO3FVHnyVAMgV1-LUvVOUnA-UftBUZmeUVaqUTJZUTQpUVe0Ua5XUgDqUnt_UwHnV33iVBR0VIwV',
    8513: 'VOyNVT7XVVAhVU-nVSZ3VO7VVHwfVAThV2A5UvffUnPkUg42Ua0-UVoaUTZOUTdmUVrXUaGgUgNrUo0pUwNdV3A4VBTCVI_B',
    8520: 'VOs5VT0sVV85VUvvVSZkVO47VHyaVAPqV2AQUvYuUnMJUfunUZvHUVYjUTONUTKAUVenUZwgUgAmUngQUwBnV2s6VBJrVIlR',
    8527: 'VOPUVSfWVUgYVUbDVS9PVNqkVHdtVAGUV1x3UvTrUn9uUfrOUZj4UVUiUTA9UTDsUVNCUZmxUfrgUnSeUvphV2ZdVAvcVIOo',
    8534: 'VOYwVShjVUtFVUfSVSNqVNvoVHsOVAL7V28jUvXVUnMKUftcUZtqUVV1UTIyUTCcUVUUUZlYUfyFUnSsUvviV2cEVA-OVITT',
    8541: 'VOBwVSV0VUXbVUTRVS3SVNkhVHZdVABZV1tlUvPXUn6bUfmAUZdzUVMMUT1cUT1CUVBGUZWXUfdaUn9bUvaIV2E_VAfOVI3p',
    8548: 'VO07VSDSVUQ3VUHYVR_tVNdDVHZ8VA6yV1v7UvL_Un85UfhuUZdVUVFdUSy-USsvUV0zUZJ0UfO8UmxUUvIiV24DVAQ3VH_c',
    8555: 'VNyUVSEtVUNsVUInVR_aVNf6VHaIVA9NV1wpUvOaUn9qUfkGUZfEUVHEUS-hUSsbUV25UZFDUfNoUmpDUvGZV1uVVAN4VHpB',
    8562: 'VNg3VRyGVU5SVU3DVRkhVNSJVHKrV9-3V1h-UvDfUmx4UfZRUZQ9UV6KUSkMUShFUUlLUZ2eUf1XUmaIUusTV1cKV9vlVHTQ',
    8569: 'VNfPVRvkVUA4VU3MVRsYVNTkVHTZV9-vV1pAUvBnUm-ZUfT5UZPAUUxfUSgYUSULUUhiUYsiUf0yUmSIUuwAV1ZgVA0oVHVh',
    8576: 'VNNuVRm3VTueVTx-VRduVNQVVHJdVA0kV1k7UvHrUmyaUfaqUZN6UV1rUSbPUSWZUUY1UYq8UepcUmLhUuhaV1P_V9ocVHJD',
    8583: 'VN93VROgVThtVTcyVRTkVN8mVHCfV9o5V1fSUv4XUmu5UfMSUZGFUUluUSPZUS9HUUFZUYNmUeQvUlstUuFAV0z9V9MyVGz7',
    8590: 'VN6HVRUrVTfCVTh-VRQUVNC7VH8QV9qVV1bQUv86UmsPUfTEUZIdUUwaUSWKUSMeUUPcUYb6UecEUm15UuPgV12BV9VBVGy-',
    8597: 'VMvNVRE1VTWxVTXZVRMHVN5sVH5uV9kxV1XqUv0XUmlwUfIXUZ8eUUjCUSJBUS7qUU9OUYLFUeHrUllWUu0NV0klV92PVGex',
    8602: 'VMlNVR0xVTM6VTIoVRAmVMsaVGwxV9WnV1OfUuqJUmeXUf7HUZ1AUUWJUS8zURstUTw_UY0MUe0lUlPmUtlpV0RwV8qxVGR7',
    8604: 'VMd3VR0BVTJpVTMYVRDWVMzBVG_cV9d6V1RWUutJUmdAUf5uUYyBUUSBUS3WURo_UTugUX-rUe3EUlQWUtsLV0TlV8zrVGTS',
    8611: 'VMZEVQzhVTDyVTL-VR9nVN1SVH12V9nVV1YmUv6sUmoIUfNmUZ7fUUjAUSBrUS0gUTxiUY84Ue0fUlVQUtljV0V8V8rLVGR-',
    8618: 'VMI-VQeFVT0VVT1UVQ-2VMjlVGsHV9UJV1OMUupYUmdCUf2oUYvtUUK1URvAURXOUTZ1UXYvUdYwUktMUtFVU_uHV8LLVFvY',
    8625: 'VMEGVQiKVSwwVT4kVQsyVMlNVGjgV9UoV1FHUuqNUmVSUf5-UYrWUURHURvMURixUTdmUXneUdhgUl7QUtRKV07KV8YgVG5g',
    8632: 'VM5ZVQTuVSvvVS-TVQyhVMlIVGtZV9XdV1QEUussUmebUf5TUYwQUUL-URuIURYCUTVwUXY1UdT6UkqUUt6sU_ozV8AXVFoq',
    8639: 'VLhsVQBaVSWGVShdVQawVMTcVGXnV9GqV14tUubXUmI4UeoRUYYFUU0-URVHURBcUT7TUXA6Ud6CUkRFUsoOU_PqV7wDVFSK',
    8646: 'VLkSVQ9uVSYYVSiwVQfMVMZJVGgJV9RcV1I3UuqaUmYgUf3-UYq2UUJHURl_URTOUTL9UXQRUdFMUkf8UssDU_aFV7uwVFYc',
    8649: 'VLiuVQBUVSWJVSiXVQaPVMVUVGX-V9KcV17JUuhxUmN6Uex6UYehUUAXURaqURKIUT9uUXGhUd4eUkVpUsjwU_T1V7qEVFTf',
    8653: 'VLTtVPxJVSNAVSWkVQXMVMOBVGZ7V9FaV19CUublUmMHUempUYZBUTwxURQsUQ_tUSycUWuTUcqxUk51UsR-U_14V7WGVF2N',
    8660: 'VLGpVPp0VS9GVSPAVQIeVMGpVGKKV991V0xdUuX2UmAlUekHUYPKUTvrURHLUQ_JUSovUWudUci7Uk6mUsL_U_4zV7UVVF7_',
    8667: 'VLAnVPdYVS9VVSJTVQPPVMHAVGWxV9EdV1CbUufzUmThUetbUYg_UU00URUDUQ_6UStzUWmHUce3UjtEUs9_U-nuV7E8VEsQ',
    8674: 'VKufVPTsVRqoVS6rVQ21VM1WVG6zV8yGV0mMUuLXUl_jUeXkUYC7UTfeUQ_hUQe-USQvUWQRUcDAUjWtUrnVU-QLV6uIVEUJ',
    8681: 'VKr8VPI_VRqTVS1aVQ6sVM2UVGGwV91sV0zQUuT8UmDmUefoUYQ7UTnsURD8UQnkUSdHUWa2UcNSUjgvUru0U-ZOV6vlVEas',
    8688: 'VKfZVPFvVRkTVS1jVQ54VM4WVGGlV93WV0xnUuRkUm7sUeYsUYECUTa2UQxZUQToUSIpUWCgUc3sUjIyUrdiU-CjV6jJVEGh',
    8695: 'VKJqVOtBVRMHVRgGVPjPVLm0VFxlV8osV0gYUuEyUlvwUeOkUY1aUTQaUQjXUQJ4US16UV_dUbjsUj4AUrFbUz-bV6MhVE54',
    8696: 'VKLrVOzcVRQgVRlbVPnfVLpMVF-zV8qkV0i_UuGKUlyRUeQQUY4wUTSdUQnzUQKmUS6dUW0RUbqaUj3tUrMmUzyYV6SlVE17',
    8702: 'VKIVVOqgVRP6VRffVPpxVLoIVG6UV8vHV0vsUuPkUmD7UecVUYMgUTeKUR1RUQSvUSGOUW2QUbsLUi_WUrHaUzrDV6KYVDx7',
    8709: 'VK7OVOn2VRE0VRcFVPclVLi0VFqxV8k0V0YzUu9PUlnvUeJ1UXvYUTKOUQaWUQ9zURqNUVmVUbRUUij-UquRUzZCV5zVVDe4',
    8716: 'VJtkVOQQVR3hVRLdVPYyVLXvVFsuV8elV0eSUu6MUluPUeFsUX_1UTFeUQe3UQ3mURsDUVfxUbRiUid_UqsSUzU8V5utVDaM',
    8723: 'VJoJVOW0VR1mVRU5VPaXVLinVFwmV8qZV0iJUuGeUlvKUeLqUXwkUTFTUQU8UPzXURebUVVVUbDoUiRlUqhHUzI5V5oHVDQD',
    8730: 'VJT-VO1sVQevVQ-WVPAXVLFLVFZmV8SDV0QpUtz_UlihUe6vUXm2UT1TUQI6UPkCUROfUVDoUauOUi7UUqGPUyxvV5JZVD3O',
    8737: 'VJRBVO4lVQggVR3OVPFuVLLvVFhNV8ZqV0ZSUu6AUlrtUeFNUXvWUT9IUQRDUPpvURWmUVG8Ua_UUi6iUqNIUyvoV5RKVD20',
    8743: 'VJKhVNwIVQciVQyVVPE5VLGwVFfwV8UaV0WnUt_AUlm-Ue5pUXnmUSy_UQGJUPbHURIxUV0XUalrUhuGUq7dUykDV5CmVCvQ',
    8744: 'VJIBVN-KVQZrVR0nVP9yVLKAVFaDV8WOV0PfUt_tUlf6Ue6OUXg5US-TUQ9YUPe8URD8UV46UagGUhwaUq1GUyjVV55kVCrH',
    8751: 'VIv5VNY7VQGTVQfVVOy_VL1-VFS3V8HmV0KHUtp6UlawUdw0UXbtUSn6UQ49UPOMUR5IUUmqUaU_UhaKUpotUyMTV4rlVCWh',
    8758: 'VIwBVNi3VQI4VQqsVO_gVLEwVFWFV8W0V0PEUu1LUlezUe6VUXdPUSwdUQ2QUPUXUR0hUUpwUaOuUhatUpi_UyL1V4njVCUP',
    8765: 'VIk1VNLJVQ4FVQTIVOnXVKuQVFJbV8ByV0F4UtltUlX2UdstUXWaUShZUPwwUPElUQsxUUZ1UaBnUhIwUpROUy1jV4QtVC9J',
    8772: 'VIULVNGlVPvuVQSUVOhxVKwjVFH8V8FpV0DJUtp0UlTPUdssUXP6UScsUPlYUP5fUQfeUUNGUZ_qUh73UpKCUxuWV4QYVC4R',
    8779: 'VIR5VN8HVPslVQMgVOfnVKtQVFGVV8EjV0EZUtpvUlWNUdv7UXSbUSfIUPnNUP6oUQddUUMGUZuyUh4BUp9HUxq-V4DiVC15',
    8786: 'VI3GVMojVPYBVQ2QVOOfVKbAVF2LV7-bV02UUtb8UlL7UdgSUXH3USP8UPaUUOpIUQO5UTzXUZbaUgbdUonyUxIYV3qVVBVE',
    8790: 'VHz-VMjfVPSBVP_wVOJ-VKbvVF06V82GV02VUtglUlMKUdmZUXHlUSUbUPZQUOu3UQLEUU2ZUZXuUghgUokNUxP6V3nJVBas',
    8793: 'VI1HVMqTVPW9VQ6FVOMqVKfvVF08V82-U__OUterUlHUUdk5UXDgUSTwUPY8UOw7UQMsUU64UZapUgkXUon6UxQIV3pcVBau',
    8800: 'VHvbVMd0VPSSVPy2VONcVKZaVF4cV7_JV05QUtbOUlMRUdeSUXFjUSKtUPWyUOk1UQJFUTuEUZVQUgW3UofXUxBQV3eJVBKw',
    8807: 'VHR_VMLMVP3qVPljVO45VKRZVEquV7vqU_tAUtVxUl6oUdW8UWxsUS75UP75UOPiUPq3UTUsUY-gUg58UoC7UwoVV3I1VB0d',
    8814: 'VHZ8VMHfVP7tVPgcVO6yVKNVVEvYV7vMV00AUtabUlKyUdfXUXDhUSJ4UPPQUObSUQ3PUTeQUZ8hUgC3UoGDUwtYV3HSVB5E',
    8821: 'VHGbVM7vVOv1VPXsVNvoVKEQVEiVV7lPU_oXUtPsUl6gUdTuUW-KUS5CUP7sUOJLUPkaUTGGUYmAUfjLUnqxUwKLV2s1VAXp',
    8828: 'VH8NVLykVOmgVPP2VNnfVK6vVEZtV7dNU_eLUtG3UkwYUdIpUWnaURxKUOylUODOUPcVUTFWUYgyUfnHUnnrUwRXV2qQVAgD',
    8835: 'VH0YVLrwVOlYVPNxVNulVKCVVEniV7ngU_vPUtRYUlA_UdR_UW-eUR_nUP5CUOC7UPgSUT8sUYhPUfctUnm0UwFHV2mWVATF',
    8837: 'VGyCVLsHVOchVPKFVNh_VK62VEZcV7hLU_ipUtNXUl13UdQBUWryURztUOxGUO7sUPU2UT1fUYTGUfT5UnXKUw38V2YOVAFn',
    8842: 'VGa5VLVTVOJ8VP3yVNU5VJxRVEPWV7YyU_YhUtDIUkpaUdBtUWa6URhxUOc3UNq1UP6wUSjWUY5TUf9uUnANUvo4V2DwVA1X',
    8849: 'VGgDVLRxVONeVO-GVNXNVJrMVETlV7VMU_gpUtEgUl1CUdIhUWscURsbUOx7UN__UPRjUSuiUYNUUfJQUnO1Uvw3V2MiVA8M',
    8856: 'VGOaVLM-VOBuVOztVNPkVJtYVEO6V7YDU_b1UtGGUkvFUdHBUWgvURmVUOgrUNqFUP6jUScgUX-eUexaUmzbUvUMV1zcV9i8',
    8863: 'VGAeVL13VN-HVOfaVNBxVJZkVE9FV7DWU_KcUswBUkdcUcwPUWOsURQFUOO-UNVmUOrWUSLOUXkXUekkUml1UvMeV1nPV9fX',
    8870: 'VG1BVK-mVNwkVOikVNGwVJk7VEM9V7T_U_cdUtDxUkxNUdEDUWhQURh4UOeAUNg-UO_tUSP1UXpGUef-UmkHUvAzV1j1V9Qo',
    8877: 'VFrIVKndVNiHVOV2VM_gVJUxVE2MV7D2U_GrUsxGUkZlUcvYUWHLURKHUOBOUNIxUOW-US17UXJNUeJLUmEfUurmV1ElV96Q',
    8884: 'VFjeVKcIVNcNVOK4VMyNVJMCVE2VV77YU_KKUsuWUkfTUcuLUWONURJiUOJGUNIMUOfaUS0RUXSYUeIwUmNqUur_V1MaV96t',
    8891: 'VFXpVKabVNVDVOOPVMwHVJVdVE4YV7KGU_OOUt5wUkihUd3UUWNlURPlUOCKUNHWUORhURuyUXA1Ue7SUm4zUufVV16uV8xD',
    8898: 'VFG2VK8jVNCZVNxnVMc-VJ2jVDmiV6t7U_4IUsf1UkPBUcdZUW5MUQ_4UNwfUMtfUO9aURVRUWsDUdkOUlkyUuI3V0lsV8dP',
    8905: 'VF2_VK6lVN3yVNzlVMZgVJ93VDoZV724U_B0UsuOUka1UcwLUWI-URJFUO91UNAGUOM7URiqUW-PUdpGUlnFUuDaV0j4V8SG',
    8912: 'VF4qVK2mVN6GVNxHVMafVJ5YVDmIV6wqU_3ZUshOUkMNUcdOUV_sUQyRUNohUMooUN-iURNKUWd1UdX3UlQKUt-vV0NJV8Gp',
    8919: 'VEeEVJfmVMjHVNawVMHZVIqOVDZrV6lRU-yYUsa2UkH-UcWuUVx1UQphUNhcUMcMUNroUR7rUWU0UdGAUlIdUtkKV0GzV818',
    8926: 'VEdzVJigVMk-VNitVMMsVJ1LVDitV700U_7vUsrxUkTDUcnKUW35UQ_xUNjiUMikUNmgUR8WUWJ6UdDVUl5yUthoV076V81J',
    8931: 'VEWbVJWUVMdHVNWJVMESVIqEVDZrV6oTU--SUse8UkJeUcZgUVvyUQpCUNbmUMXtUNgMUQ_zUWDeUd64Uk-bUtYgU_x0V7qh',
    8933: 'VEQ1VJNEVMU-VNJUVM4DVIb1VDOrV6ZKU-r2UsRYUkDIUcP-UVrvUQgNUNXVUMMgUNZDUQmAUW2rUcoiUkoFUtFVU_lrV7ao',
    8940: 'VEADVJIiVMJKVNJNVLy8VIdnVDJ3V6dgU-mZUsX2UkAAUcX9UVqkUQpVUNYCUMWwUNahUQvVUW3VUcuXUkn4UtGFU_jHV7XN',
    8947: 'VEEuVJFhVMRaVNKBVM6mVIgfVDTkV6fQU-uEUsURUkCOUcOXUVmpUQbUUNPNUMFzUNPFUQf0UVtdUchBUkbdUt77U_YaV7Sj',
    8954: 'VDe_VInpVLtcVMv5VLe-VILcVD7GV6QcU-dUUsJrUj-SUcFBUVYxUQQcUN9pUM1dUN7QUQM2UVZjUcJNUkGaUshcU_DXV6_W',
    8961: 'VDjkVIorVLzJVMzKVLlwVISnVDF_V6aFU-nrUsUoUk98UcPeUVhoUQYlUNEnUM6aUN7UUQOKUVVHUcKMUk9LUsitU_5xV72H',
    8968: 'VDauVIfQVLpyVMmYVLb8VIDJVD49V6JsU-cRUsFWUj_jUcCgUVa_UQNfUN9gULx6UN1-UQ9xUVNfUc25Uj_7UsNkU-vJV6hi',
    8975: 'VDENVIQKVLY6VMdbVLN7VI8NVCukV6HAU-SMUsDTUjrRUc9dUVOlUQIIUMwJULp9UMlaUP_-UV3PUbtMUjhUUsDjU-f7V6Zt',
    8978: 'VDBaVIP4VLWYVMeVVLPLVIClVC-BV6NUU-YaUsJAUjw0UcD0UVQ_UQJRUMxFULpHUMmqUQ0KUV60UbuJUjlFUsEdU-irV6Zy',
    8982: 'VDG5VILAVLcwVMa_VLVJVI8XVD3AV6IfU-dDUsEYUj_DUc95UVWfUQFZUM_xULjuUMoVUPuIUV3MUbkTUjf0Us5tU-baV6V1',
    8989: 'VCrIVI39VLBLVMJgVL62VHwCVCjpV684U-LNUs6XUjkxUc1ZUVG2UQ6rUMjuULYqUMUjUPg0UUjzUbRpUjHnUrjXU-CJV61k',
    8996: 'VCpmVHwGVLCUVME9VL8nVHscVCmsV64gU-NbUs25UjliUbxbUVEwUP_MUMgpULQoUMQGUPZ6UUelUbNJUjBoUrhdU-5WV61-',
    9003: 'VCjPVHwSVL7TVMDyVL5uVHtZVCmlV67sU-Q9Us7LUjpsUc1UUVJ3UQ3-UMjrULSsUMSEUPY8UUg8UbJ1UjCkUraRU-6AV5ur',
    9010: 'VCHsVHV4VKlmVLvKVKohVHeYVCXHV5ySU-CqUrz7UjcMUbrpUV2aUPqPUMNXUL7aUL-CUP6_UU5FUaqwUibdUr8DUzYjV5YS',
    9017: 'VCI6VHSMVKmMVLr2VKpuVHZ_VCZUV5uoU-GlUrxZUjj0UbtHUVCdUPunUMaTULDAUMC9UPBDUUHiUarzUikeUr67UzdsV5Uo',
    9024: 'VC5ZVHNVVKbPVLpJVKgWVHZpVCQRV5uSU-6pUrwAUjXwUbqyUV0bUPrYUMM_UL8GULyHUP3UUT-sUagJUiP3UqrrUzGSV5AG',
    9025: 'VByYVH9nVKUJVLcxVKdAVHR2VCRWV5pMU-AvUrshUjcJUbmNUV39UPkeUMNpUK_rULylUOx2UT_xUaYsUiQOUqlzUzHQV56U',
    9031: 'VBrzVH0VVKPSVLV8VKXDVHHsVCIZV5dGUz-aUrdcUjNDUbV6UUoGUPSTUM6AUKkNULhZUOi6UTmTUaNsUiDHUqenUz6DV51u',
    9038: 'VBmBVH4SVKKqVLawVKWgVHS1VCNvV5sxU-9MUrxUUjapUbp-UU_9UPkkUMFdUKxdULmtUOpnUTozUaQuUiFGUqejUz9GV4_k',
    9045: 'VBQlVGdaVJ_hVLB5VKDqVH6bVC8iV5bhUzz5UriGUjP3UbZtUUmrUPQxULxkUKYKULLPUOKxUTFyUZuUUhd6Uq6MUyWZV4XV',
    9052: 'VBMMVGc-VJxXVL7mVK8QVH07VC1RV5TIUzreUra_UjKTUbWgUUnTUPSuUM29UKeJULWQUOSMUTTLUZ-bUhqRUq9XUyhoV4XS',
    9059: 'VBG4VGaYVJx0VLDJVKCsVHAeVC86V5f1UzxfUrl8UjNsUbdmUUnFUPWgULz-UKf4ULNwUOPnUTFdUZtjUhXiUp-iUyMTV4KZ',
    9066: 'VAtOVG7qVJbGVKnkVJvgVGmGVBsJV5ExUzfXUrJnUj3mUb9rUUQRUO_wULb0UK6FUK-EUNsvUStUUZNoUhCzUpa3Uy5TV405',
    9072: 'VAx3VGA5VJdPVKrDVJyuVGszVBytV5PuUzqIUrYyUjILUbSDUUh2UPJ6ULqUUKNNUL9UUO3nUSydUZVKUhBcUpc3Ux-vV3zv',
    9073: 'VAlxVG8ZVJTxVKrSVJsZVGv-VBw2V5VkUzp_UrgDUjIQUbYkUUfmUPNmULnoUKQLUL6eUO5jUSxIUZWpUhDGUpdNUy3mV3-n',
    9080: 'VAgBVFvOVJOUVKcaVJmoVGhIVBpzV5H2UzjbUrR9UjBGUbINUUWKUP4HULa1UK2UUKpZUNgHUSZcUZ4FUgoYUpCGUxdkV3cm',
    9087: 'VAObVFmqVJ7fVKSsVJVoVGW5VBYVV555UzSGUrFfUiw_Ub8OUUIGUOycULPEUJz9UKiVUNcYUSWIUZ10UgobUp8eUxgJV3YN',
    9094: 'VAKhVFg4VJ9JVKUCVJdRVGeVVBl7V5IHUzhyUrUvUjBEUbMxUUWBUP82ULY9UK3sUKkQUNdtUSQQUYzcUgcGUp2ZUxQuV3Sb',
    9101: 'V9-vVFL1VIpKVK7GVJIOVGH8VBQjV4wCUzMfUr54Uiq0Uax2UU7NUOgcUL8vUJbOUKLgUN8OUS2QUYTEUgFNUoYwUx6GV30A',
    9108: 'V9lLVF9LVIaxVK0QVJ88VGGOVBM6V4_kUzNpUrFwUivcUb9PUUFHUOwXULGtUJq_UKRYUNLrUS4SUYcdUgCNUocAUwzqV2yB',
    9115: 'V9qwVF9tVIknVK2hVJJPVGIBVBVzV4-tUzU8UrAkUix4Ua-wUUBUUOgrUL8bUJXTUKGVUN0aURuSUYINUg0zUoLGUwpSV2lY',
    9119: 'V9VkVEyiVIOoVJsAVIzgVG6YVBBCV4qdUzBEUr2xUihAUawYUT_1UOfcUK-WUJXaUK6tUM_sURk0UYF4UfreUoEiUweNV2cM',
    9122: 'V9LkVEqFVIG2VJk5VIs5VF_TVB5KV4l4Uz6pUq-4UicQUaq3UTtVUOVMUKo_UJJEUJueUMlWURWCUX_vUfh1Uo2uUwXsV2UM',
    9129: 'V9MAVEioVIJaVJh9VIzmVG1yVBHwV4t7UzOFUrAYUix9Ub2gUUCfUOi_UL4yUJStUK3-UMpJURZ4UX-GUfcCUn-bUwP4V2Rk',
    9136: 'V9BUVEeUVI7RVJZGVIliVFsRVB1CV4e5Uz4kUqutUibmUalXUTsdUOPLUKlWUJ93UJlwUMUkURGHUXdnUfKEUnb-Uw7zV226',
    9143: 'V8rBVEF-VHpXVJGyVIWSVFgVVAsaV4WkUyzAUqpsUiVnUahwUTnrUONSUKhoUJ9BUJiRUMWMURBTUXfOUfCJUnbWUvxuV1zl',
    9150: 'V8uqVELJVHzkVJPvVIlOVFrXVB7HV4hNUzCGUqx9Uig8UajBUTrdUOHWUKfOUIzCUJcWUMHMUR5gUXR3Uf9EUnQTUvy2V1tD',
    9157: 'V8O6VDuIVHPgVIzMVICLVFSkVAejV4OJUypZUqjvUiMRUaZoUTa5UO8mUKMTUInxUJFUUM1eUQfwUX6mUegjUn3DUvTuV1Uj',
    9164: 'V8MEVDlQVHR8VIsgVIGOVFOYVAliV4NPUyzwUqmFUiZYUae9UToBUOCwUKYwUIpJUJNhUL-fUQiVUW_xUee0UmwsUvNjV1Nk',
    9166: 'V8OBVDvrVHXBVJ37VIOFVFaDVArzV4VfUz0UUqqVUiYmUafsUTmCUOEKUKYJUIsFUJQIUM3aUQocUX5TUelxUm-hUvVWV1P9',
    9171: 'V8I2VDrUVHNXVIxvVIBVVFQtVAdpV4LwUyoeUqhfUiM1UaYFUTaQUO7LUKMNUIkKUJCMULu-UQXoUWtwUeTVUmlQUvDQV19H',
    9178: 'V7v9VDMFVH2_VIZJVHyAVF8JVASWV46-UyfFUqTmUiCdUaJeUTPaUNtCUK9KUIT8UIzEULd-UQGdUWdqUeA8UmWhUuuiV0ye',
    9185: 'V7r_VDQ2VH4IVIflVI2NVFHyVAcjV4IuUyr1UqfUUiMmUaS7UTVUUNwHUKAFUIQHUIwKULW9UQC7UWSuUe6JUmLFUutYV0ph',
    9192: 'V7coVD6zVGl1VIKmVHguVE-FVAG_V439UyZgUqUdUi9eUaKlUTKTUNqEUJ-qUIJoUIiNULNzUPwHUWI8UdmVUm7VUuUXV0YU',
    9199: 'V7OwVCtnVGcdVI8UVHckVEqPVAFRV3wZUyYvUqL_Ui8XUaBLUTINUNfEUJx6UI6JUIcnUL8AUPpYUW1mUdg4UluvUuP3V0Mx',
    9206: 'V7NHVC-fVGcHVIHZVHcwVEztVAFJV43ZUyYJUqUgUi7rUaK6UTHoUNo6UJwJUIEoUIbLULFhUPncUW7jUddwUlyIUuM-V0NN',
    9213: 'V6-5VCTzVGHkVHs6VHNcVEdaVA42V3mkUyPOUqDOUh_TUa2UUT84UNUGUJjHUHtAUIJCUKpVUPPFUVdtUdA8UlRnUtswU_wV',
    9220: 'V6o6VCRNVG6XVHpcVHEAVEcOV9z7V3nXUyKcUqFgUhxmUa5HUT4eUNWmUJfrUHubUIFhUKonUPLUUVZmUd5zUlJpUtonU_l_',
    9227: 'V6q-VCMbVG7ZVHlbVHElVEa2V9-QV3mkUyMdUqFQUhzfUa4fUT5fUNVYUJfOUHstUID7UKmqUPG6UVXRUcz1UlGMUtbuU_gQ',
    9234: 'V6MwVB-GVFlyVHRAVGz1VEJ3V9mWV3XXUy9pUp_kUhlGUZo1USpUUN83UJItUHQSUHpvUKHBUOt5UV1eUcdLUkpgUtLJU_Ic',
    9241: 'V6O8VC0uVFlrVHVXVGzAVEPlV9oWV3hLUyEyUqD1UhtgUa24USzeUNO_UJSAUHg5UHw0UKUCUOvNUVC9UcdFUkynUtLEU_Q_',
    9248: 'V684VBhuVFYnVHBrVGogVE7sV9gWV3RoUy9PUp_RUhpQUZqoUSujUN9hUJKCUHMBUHifUK3mUOb9UUhNUcCXUkORUssYU-tt',
    9255: 'V5tnVBaDVFHoVH4FVGXQVD_qV9OXV3IfUxsKUprYUhWJUZhqUSdXUN3bUJ6iUHJ-UHZUUK4pUOViUUjUUc9JUkOrUsq1U-qj',
    9260: 'V5qwVBWJVFIgVH5uVGdKVE7UV9ZkV3VgUy5-Uq6CUhoEUZzBUSuMUNIFUJIzUHTOUHf1UK8FUOULUUi6Uc2xUkLNUsiBU-oI',
    9262: 'V5yIVBXOVFRAVH7JVGm5VE8SV9h8V3ULUy9-Uq0rUhnyUZq1USrFUN7oUJG6UHL2UHfOUK4cUOYmUUj4Uc8wUkN_UslRU-p9',
    9269: 'V5OeVB7JVEx6VGltVGKaVDp-V9JJV3B-UxpvUpklUhR3UZViUSR7UMkxUInXUGslUH79UJXgUN_ZUU7xUbeCUjpmUsJ_U-Id',
    9276: 'V5MtVA_OVEsCVGeDVGF6VDl3V9GoV3CGUxsvUprJUhZ_UZhYUSdtUMzJUI-PUH4UUHGSUJiXUO37UUFLUbcCUjufUsEcU-ML',
    9283: 'V5H2VAxNVEq6VGajVGF5VDhYV9HdV38fUxt_UpneUhb4UZdXUSeLUMtXUIyhUGwWUHAhUJSMUNuKUTurUbN9UjUPUrzUUzy8',
    9290: 'V4zgVAiUVEWKVGN9VFwGVDTMV8wcV2uDUxUCUpUiUh95UZJEUSBuUMaGUIY7UGghUGpbUJGzUNbKUTnZUb8NUjPzUroQUzuQ',
    9297: 'V4uCVAY6VEY4VGKHVG53VDYuV9DEV33_UxrLUpj7UhW_UZWlUSXQUMkBUIpAUGlVUG_7UJGZUNhBUTj7Ub90UjJFUrkWUzn9',
    9304: 'V4ZmVAMUVEB_VG7LVFkSVDLeV8tIV2tEUxVvUpV_UhATUZHcUS8FUMRmUIMvUGPlUGWrUIuSUNCuUTJSUaiIUiuJUrKhUzMS',
    9307: 'V4TPVAF3VE63VF_0VFdzVDCfV8n8V2lVUxSNUpRyUhBKUZHtUSCjUMU7UIRoUGQSUGYgUIqaUN9dUTAGUaa9UihcUr9oUz96',
    9311: 'V4P1VA1-VE06VFpyVFZTVD5XV8lfV2i6UxTTUpQfUhDUUZH9USE_UMU5UIUeUGSdUGcnUIwEUNEgUTJCUaeXUirqUrBQUzHt',
    9318: 'V4MiVA8lVE3RVFzVVFgqVDGdV8uyV2tHUxcRUpaFUhK8UZNbUSI4UMW9UITpUGPmUGYkUIoZUN8hUT7gUaYXUielUr7SUz5y',
    9325: 'V40JV9mKVDiyVFdRVFJxVCxGV8WoV2XAUxCpUpDAUgviUZ0GURtYUM9MUI3CUG3iUG7NUITQUMifUSqJUa7GUiOIUql2Uyv2',
    9332: 'V3onV9YKVDamVFTrVFJCVCu5V8dUV2aJUxPdUpLKUhAhUZBKUSAHUMKTUIKsUGBZUGL5UIV4UMq2USkNUa7UUiC0UqfJUyg1',
    9339: 'V3oCV9dfVDXxVFXwVFDGVCvQV8U3V2YHUxCjUpFxUgwaUZ2wURtFUM9XUH_ZUF_7UF-oUIIMUMUDUSY2UZpIUh_gUqNJUyS_',
    9346: 'V3PPV95lVDA4VF1hVEudVCTmV8EfV2COUx2cUo-cUgprUYpqURnoULx3UHwBUFmjUFuwUI4DUMNMUSKWUZgKUhoPUqAeUyF1',
    9353: 'V3LAV9DxVDBtVFFFVF0MVCljV8QSV2WUUxFRUpHwUg-RUZ3LURtLUM4JUHvBUFoeUFoDUI03UMEPUSDYUZZkUhi2Uq9QUyBJ',
    9354: 'V3RJV99pVDFFVF89VF0DVCb_V8O2V2M6UxDQUp9LUg_BUY-KURxxUM3BUI0tUFqDUFwbUI2EUMKMUSEeUZbMUhiBUq7LUyBw',
    9360: 'V34pV8qBVCuAVEqfVEg_VCLsV85UV28aUwyMUoyeUgj-UYmnURe_ULpXUHh3UFX-UFXkUHj-ULvPURvHUZ9XUhMLUpiDUxsa',
    9367: 'V2nXV8d9VCfbVEftVEWmVCDIV7-lV22hUwvEUowJUgkqUYoAURjSULtSUHngUFbkUFdwUHjsULy8URoIUZ73Uh8JUpbCUxaO',
    9374: 'V2vEV8m7VCo7VEriVEezVCPIV84WV2BjUwwMUo-2Ugg7UYmGURZfULntUHb1UFVTUFQcUHesULlAURlAUYx8Uh6xUpR2Uxa0',
    9381: 'V2QLV8DDVCMQVELJVEIVVBznV7pyV1rQUwkXUohKUgWfUYUYURQ4ULUpUHPgUF9qUFDIUHHCULWwURN8UYiSUglhUpBEUxDj',
    9388: 'V2GzV8DgVCGNVEQqVEHBVC8HV7t1V23cUwqBUowkUgbzUYhyURRjULd6UHL6UFBKUF29UHCTULHcUREdUYT9UgcWUo_-Ux6X',
    9395: 'V2FwV80ZVCAMVE8vVE6dVBpYV7grV1lZUwgHUoghUgWqUYWsURQqULVJUHLnUF4CUF1HUH3yULCqUR3wUYJ1UgPcUomFUwu1',
    9401: 'V1siV7ksVBt0VD-OVDvaVBl4V7YOV1k7UwYrUoeMUgMxUYQ_URCwULLNUH46UEt2UEj3UGqwUKtjUQqCUX-hUgA6UoUGUwfO',
    9402: 'V1pxV7lxVBpNVDxaVDpvVBebV7R6V1cBUwS5UoY1UgJDUYOWURDhULN5UH99UExHUEqlUGupUK_jUQr4UY59Ug79UoYnUwa2',
    9409: 'V1uSV7loVBwGVE0NVDzGVBmrV7bIV1kuUwanUoeaUgOtUYRsURG5ULNtUH8zUEx2UEonUGvCUKycUQtHUY1RUgBTUoV4UwgC',
    9416: 'V1TvV7NGVBYNVDfzVDhIVBVGV7PIV1XZUwSQUoTFUgHNUYG9UR7TUL9-UG-DUEflUEbZUGZfUKiiUQTEUXl3UfkKUoB5UwCN',
    9423: 'V1DOV7AbVBIzVDWmVDTMVBO-V7DUV1U9UwIzUoS3Ug9HUYFVUQ-fUL7qUGoaUEajUELxUGRTUKPNUQIOUXPZUfXbUnrSUv-c',
    9430: 'V1MjV7CFVBR1VDVIVDZbVBLPV7InV1QEUwOuUoPMUgGvUYEhUR8AUL8YUGzIUEbpUEWLUGRkUKYDUQHjUXW7UfWSUnutUvyx',
    9437: 'V0rfV6tGVA_8VDFZVDCOVB9nV6_SV1HYUw7uUoHkUf_qUY5ZUQqHUKxHUGaWUEIwUE2fUG3jUK1qUPsZUX0bUf4oUnToUvZg',
    9444: 'V0rPV6jbVA_LVD7-VDE1VB4kV72aV1EMUwC6UoFmUg4-UY4dUQwIUKxIUGgoUEJRUE7vUG47UK4VUPskUX02Uf5dUnR4UvcU',
    9448: 'V0ilV6krVAuoVDBEVDBiVBBAV748V1N2UwFIUoOKUg6nUYAKUQuJUKyIUGaVUEFhUD-xUFz6UJxiUPk9UWvZUey9UnN4UvSC',
    9451: 'V0dFV6d9VAoqVD2BVD4oVB10V6yiV1CvUw8iUoFoUg2UUY4dUQt9UKvgUGc3UEEjUE0zUFwtUJwoUPdWUWo_Uem2UnB0UvCf',
    9458: 'V0JcV6GCVAVLVCjxVCnXVAkXV6fMV0woUvqbUnyzUfjLUXn2UQXMUKcGUGGKUDy-UDi0UFhvUJceUPREUWU_UebBUmsaUv1f',
    9465: 'V0MgV6JOVAbPVCo7VCxUVArNV6tOV14mUw5qUo8_Uf_lUXyvUQoYUKlfUGUtUE2mUDu5UFkbUJnRUPSDUWfRUebvUn0ZUv2d',
    9472: 'U_sPV5vlVA7gVCU3VCYCVAcrV6YYV0wRUvq0Uo0fUfkYUXpkUQUwUKYcUG5kUDlMUDNXUFK4UJAOUOypUW0LUe5eUmQjUua_',
    9479: 'U_mvV5hLVA1fVCDwVCR1VALtV6RKV0gUUvkmUnpiUfj4UXh1UQXmUKTsUGBfUDieUDTwUFG_UJESUOtsUW03Ud-nUmLjUuTd',
    9486: 'U_i3V5oCVA0rVCOCVCTbVAXwV6VKV0seUvoeUn_CUfmIUXrtUQaOUKdoUGD9UDqAUDT2UFJzUJA5UOqPUVtuUdqNUmAtUuEB',
    9493: 'U_RMV5PAV9mEVC0cVCCmVABEV6DqV0VVUvVFUnbjUfPfUXOsUQA7UK88UFm-UDL9UD1xUEvJUIo5UOW5UVZBUdcGUlunUu4u',
    9495: 'U_EJV5DMV9bXVBt5VC7lVA7DV6FuV0XlUvdMUniTUfaqUXWdUQKYUKD3UFtUUDKQUD36UEo7UIkZUOK1UVT8UdOMUloDUttQ',
    9500: 'U_EhV5J8V9dFVBznVCArVAEhV6K3V0fkUvh_UnqUUffKUXeNUQOtUKKkUFyCUDSXUD8vUEwjUIrcUOSLUVaxUdVPUlwMUtyu',
    9507: 'U_3AV55aV9PfVBnsVBzPVA5VV68TV0ZWUvYUUnm0UfWOUXZPUQE3UKC-UFj0UDGNUCpqUEg3UIR0UO8jUV7DUdB9UlSoUtfu',
    9514: 'U-owV4o6V9AVVBSUVBjmV9k5V5tyV0BOUvIkUnPwUfK6UXHiUQ6pUJ__UFgIUD6SUCpbUEWgUIQsUNz-UV4_Uc-KUlMyUtRB',
    9521: 'U-k5V4tbV9BDVBehVBpNV9-nV60eV0UFUvSZUnj4UfTOUXZeUQEBUKFYUFkfUDIkUCqIUEepUINYUO12UU-IUcyXUlF4UtMS',
    9528: 'U-UqV4VNV8zAVBHeVBcJV9eSV5pKV078UvDMUnJTUfB4UX6oUPufUJm0UFMpUCnxUCRJUE8mUH-tUNaJUUdEUcbBUkwTUt5X',
    9535: 'U-4MV4EWV8aMVB3eVBJhV9XFV5fWV089UvBmUnREUfEvUXI5UP-TUJxLUFReUCwFUCT9UEBfUHycUNV-UUWOUcOxUklVUsop',
    9542: 'U-G3V4I_V8l7VB8kVBSPV9bbV5leV0AcUvF8UnRGUfFaUXFWUPy8UJrmUFLXUCnlUCJ6UE1bUHlaUNMNUUHvUcHVUkXAUskB',
    9549: 'UzosV3vFV8JNVAk0VB2TV9BGV5O4U_o9UuwUUn5VUezfUWxzUPi5UJZKUF6mUCVJUC5HUDkCUHYYUN1jUU5gUby2UkLMUsOL',
    9556: 'UzhLV3rhV8GAVAnTVB3xV9KcV5TlU__sUv3BUnLaUf7RUXC4UPqWUJn6UFBEUCemUC3oUDoQUHQtUN1YUTwQUbw8UkAjUsNU',
    9563: 'UzbbV3fOV89uVAZMVAzpV95wV5NfU_mTUuyCUn4kUe-vUWvfUPgfUJTSUF0WUCK4UBuBUDSYUHDzUMglUTh_UbZhUjxEUs3Q',
    9570: 'Uz5cV3IlV7hLVAGFVAZCV8tMV51uU_cgUuhMUm_eUeodUWukUPY6UJVeUEwRUCNdUBoqUDUzUH7CUMeuUTXYUbQEUjhVUrnF',
    9577: 'UzJIV3OzV7z3VAPyVAsUV92DV5KEU_lzUuwSUn4rUeyVUWuCUPbwUJPUUEv4UCE2UBkdUDLCUH2BUMXaUTSmUbMuUjdRUroO',
    9584: 'UynuV2_KV7RWV9_dVANEV8fyV4vPU_RzUuasUmrXUeh9UWhuUPMJUJD7UEeSUB-iUBRfUD1mUGjrUMAsUT96Ua-bUjM7UrQ8',
    9589: 'UyfWV2vFV7KZV9xzVAH8V8d5V4olU_O6UuSTUmlmUeWrUWaWUPAnUJ59UEScUBsyUBFmUCwHUGXeUM3KUSybUasdUj9aUrHW',
    9591: 'UycPV2mDV7ISV9rzVAHsV8c9V4uTU_TNUudqUmwMUem5UWnUUPQFUJGWUEe3UBzNUBKDUCwaUGUZUL-xUSq6UanAUj03UrFC',
    9598: 'UyexV2oOV7JeV9ppVAGyV8VzV4r1U_K9UuYpUmmJUehhUWetUPO5UJA1UEeKUBtzUBLiUCq6UGVOULriUSoxUab4UiyVUr1M',
    9605: 'UyAeV2PhV6uJV9X6V9vjV8ICV4WuU_97UuG4Umc1UeP8UWUgUP5nUJ0aUEMnUBlsUB4uUCizUGEXULk2USWzUaQnUieYUqoo',
    9612: 'UyB8V2L7V6-bV9WqVA4oV8LcV4l1U_EMUuUfUmg9Uea_UWUjUPCWUIwwUENtUBb7UB1uUCVhUGA0ULXdUSStUaHhUibRUqkD',
    9619: 'UxtgV28uV6dJV9IsV9kGV89_V4SsU_7YUuHiUmd-UeRuUWV4UP4bUIx0UEEhUBYaUAs5UCPBUFxiULMjUSD9Ua2rUiM2UqSk',
    9626: 'UxbCV1kpV6NjV8ynV9XLV7tpV4InU-v0UuAWUmSEUeMZUWKNUO_3UIl7UE6EUBJWUAeWUC6EUFeAUL0uURqZUZiLUhwlUq7-',
    9633: 'UxfAV1vnV6SGV95JV9apV7ypV4J_U-woUu9qUmSXUeLlUWLTUP0DUIobUEAjUBPFUAlxUCCAUFmrUL4ZURypUZiYUi1rUq5F',
    9636: 'UxWGV1lyV6ONV90uV9bwV7ybV4NeU-xZUuCXUmQoUeKdUWF3UOw8UIdRUE0ZUBBGUAa6UB-FUFbnUKupURpTUZZTUhvlUp-N',
    9640: 'UxEpV1V0V664V8nyV9JLV7lPV45uU-miUtzDUmJOUe8zUWBUUOnhUIcOUDuuUBAAUAPzUBwXUFMuUKnIURWFUZPGUhbPUppd',
    9647: 'Ux1uV1GzV5yNV8bJV9DmV7baV44AU-fXUtzpUmDGUe9gUW4OUOmnUISxUDrkUAzrUAKmUBhRUFG9UKWDURObUZ7tUhTcUpaK',
    9654: 'Ux0GV1JTV5sTV8cfV96lV7e4V3_0U-l5Utx_UmMDUeAbUWF9UOoHUIdLUDrmUB6IUAI8UBn4UFAkUKYaURGyUZ6OUhKBUpUB',
    9661: 'Uwd0V0pBV5XKV89mV8r9V7EKV3luU-NFUtjpUl-fUdxzUVskUOYPUIDLUDZwUAgQU9-4UBK9UEr0UK6KUQwDUYiDUgyNUp6O',
    9668: 'Uwa8V0wfV5VnV8HeV8qZV7MCV3mGU-VcUtlSUm85Ud-zUW1FUOcHUIO2UDdwUAqDUA1uUBSQUEvKUKCuUQ_lUYmhUh3HUp8-',
    9675: 'UwINV0Y0V5GfV7-aV8fiV799V3feU-N7UthsUm2AUdybUVxaUOYkUIGDUDWNUAdwU9pZUBA2UEYHUJqWUQWuUYLZUgXMUomM',
    9682: 'UvzBV0HSV4yRV7ibV8MlV6sgV3NxU-4wUtRBUlmeUdiwUVh8UOKbUI1EUDKPUAQAU9flUAyEUEPeUJazUQODUY3WUgNrUoSM',
    9683: 'Uw0cV0F_V50rV7kZV8SAV6wqV3T8U-8oUtUPUlo0UdipUVeyUOGnUHy1UDDlUAJyU9Y1UAtoUEIlUJaPUQJ7UY70UgKMUoYl',
    9689: 'Uw3sV0OcV53gV7tdV8VpV75JV3YnU-LZUtcZUm1FUdtKUVwQUOTGUIF5UDRAUAckU9k0UB7GUEQmUJjrUQLvUY9MUgIPUoUa',
    9696: 'UvhpU_ziV4ldV7UTV8F5V6jmV3K1Uz-mUtOFUlfuUddiUVWlUOAbUHneUD4rUA5mU9LgUAbDUE3CUJE5UQ1SUXkPUg1IUo8n',
    9703: 'UvSaU_sHV4VsV7OYV80tV6gqV39bU-0RUtIwUlmdUdc_UVh4UOC6UHyYUD5MUAE8U9IoUAfHUDyiUJDvUPvAUXhBUfvuUo49',
    9710: 'UvQ2U_g7V4TiV7D4V7_SV6XPV3ANUzwTUtN4Ulk6UdjnUVgDUOJ8UHwfUD9dUA8VU9HMUAU5UDpiUIzCUPebUXN4Ufa2UnmW',
    9717: 'Uv1JU_QiV45pV6yyV7d_V6FjV2nrUzcAUsyMUlNZUdHwUVJdUNueUHcOUColU9tdU8_2UAFnUDbKUIlHUPSeUX7UUfP3UnUH',
    9724: 'UuzoU_JOV47GV6z-V7l_V6OlV2_HUzqEUtCJUlcuUdXIUVXMUO5OUHnLUCx_UA03U94lUAMdUDdLUIqeUPQ4UXAVUfHtUnUq',
    9730: 'UulxU_B1V3ufV6qhV7XNV6F3V2nGUzh3Us_XUlUrUdLjUVP-UNw1UHfFUClNU9rTU8rbUA84UDLXUIYfUP7uUWtiUf2QUnDw',
    9731: 'UukWU_6oV3wCV6nJV7bSV6COV2s7UzddUt2zUlOsUdM0UVGMUNsjUHSEUCffU9coU8ltU9wGUDI3UINcUP7EUWm6Uf3hUn9h',
    9738: 'UuLfU-lOV3UuV6ROV7B5V5wrV2WiUzT8UsquUlM4UdEvUVJPUNpbUHXTUCcKU9gMU8ecU9vQUD4zUIHKUOqgUWahUejPUmvp',
    9745: 'UuVbU-pwV3hZV6W0V7OUV5-xV2jnUzWbUt1NUlOwUdQkUVLWUN-YUHY7UClBU9dxU8jmU9ouUD5sUI7cUOoAUWQOUef8Umnd',
    9752: 'Uu68U-aAV3ImV6H1V6_lV5lDV2K1UzFDUsc3Ul5yUc-EUV1jUNXoUHEfUCJYU9L-U8KXU9YqUClqUHuxUOVdUWB-UePtUmYd',
    9759: 'Utt3U-DlV38qV621V6yzV5eUV2O5UzF4UskzUl9fUd9RUV6YUNijUHIFUCRmU9MfU8O6U9VmUCjSUHoHUOMzUW2yUeCFUmP7',
    9766: 'UtqrU-IXV35ZV641V6vMV5esV2KkUzEgUshEUl7gUd3ZUV1VUNZbUH9aUCFvU9AyU8BBU9I1UCX7UHY-UOC3UVoXUe3ZUm9V',
    9773: 'UtPiUzntV2dnV5bBV6SXV5EVV1xsUywHUsO1UkveUcsEUUuvUNQcUH4SUC8gU978U82uU9DWUCLFUHS4UNx9UVe0Udj9Ulw5',
    9777: 'UtSeUzvmV2lBV5iyV6aeV5JJV21QUywhUsPqUksBUcrBUUpHUNOHUGzbUC5aU8-QU7-jU925UCG6UHECUNs4UVPnUdg3Ulku',
    9780: 'UtRqUzswV2nRV5kFV6hbV5PxV2DIUz5jUsehUl2jUd3dUUzmUNZEUH3xUCCFU91DU82ZU93XUCJ8UHGNUNvZUVTcUdjnUlpL',
    9787: 'Ut5eUzbGV2PnV5TcV6JHV59oV1qxUysSUsHRUkrHUckUUUofUNG6UGwQUBvfU8tUU7kLU8tuUByeUH2mUNYLUVE-UdO7Ulad',
    9794: 'Usn6UzACV29YV56MV67_V4tTV1kgUye_UsFjUkh-UcmIUUi3UNJbUGqIUByDU8l7U7j0U8gxUBqvUGmBUNJBUUu2Ud2xUlCv',
    9801: 'UsspUzPKV2EPV5K0V6BUV52oV1mFUynVUsEhUknNUciOUUkgUNDLUGqkUBqUU8k3U7b6U8exUBk0UGjAUNDuUUpNUc_KUl6a',
    9808: 'UsW8UyvAV1stV4s2V5s0V4feV1UwUyTcUs1RUkXBUcXSUUW0UN33UGciUBgSU8XBU7RLU8TvUBZrUGZnUN1mUUgMUclcUkyD',
    9815: 'UsHOUypdV1lpV4s1V5sjV4klV1bCUybfUs9mUkezUcdzUUa1UN4OUGa0UBanU8MWU7FPU8CYUBK_UGFKUMqaUUN2Ucd9Ukih',
    9822: 'UsDaUyhNV1beV4h5V5eZV4ZFV1MZUySCUrziUkZSUcWBUUZ6UN0eUGcfUBYzU8QTU7CSU8FKUBEJUGFEUMfJUUJrUcP4Ukdp',
    9824: 'UsCcUycSV1dJV4c3V5fFV4RMV1JmUyGOUrtTUkKxUcONUUKCUMvmUGPfUBUqU8GSU7BAU87mUBEOUG8tUMenUUDjUcMNUkXh',
    9829: 'UroAUyFGV1FiV4HfV5MwV4C2V17-Uy7JUro9UkHXUcNnUUJyUMwaUGOlUBTJU8B9U74XU7xkUB1bUFrtUMMrUTrnUc1vUk87',
    9836: 'UrnjUyMpV1GWV4RnV5ONV4MdV18KUyFzUrldUkMoUcHpUUM6UMoGUGPbUBKlU8CmU6zPU7-tUAyEUFvjUMJ3UTutUb_SUk9J',
    9843: 'UrWTUxyzV11vV45VV5EEV45fV134Uy3kUrjmUkCuUcGmUUBrUMlhUGD6UBFDU7zUU6qlU7jrUAnLUFenUM6HUTf1UbmQUjwx',
    9850: 'Ur4tUxiCV0fZV3tpV4wyV3yAV0r6Ux-JUrZkUk9vUc7-UU8MUMasUG5sUA_mU7mEU6W2U7QCUAOtUFG1ULitUTDYUbPIUjVt',
    9857: 'UrK1UxnKV0ohV3v4V4-mV3x4V0sXUxzdUrcKUkCCUcE7UUEYUMkFUGEjUBAGU7w2U6fMU7ZpUAVNUFOwULlgUTLUUbOZUjcd',
    9864: 'UqqPUxNmV0OlV3YNV4g1V3dDV0buUxi6UrODUjxwUc0pUT-DUMWeUFzMUAxcU7cDU6OfU7BsUABwUEyJULPyUSrwUb2LUj70',
    9871: 'UqhwUxH5V0HEV3VqV4a0V3dGV0WAUxiUUrHPUjx9UbuWUTyFUMNOUFx3UAo7U7aaU6FNU7BUUA36UEzbULIFUSuYUax-Uj9g',
    9878: 'UqXtUx2CV0AIV3JeV4YdV3W3V0aFUxfbUrOyUjwUUc1EUTxiUMVOUFusUAttU7VCU6HYU71pUA0hUElJULAjUScvUamBUitW',
    9885: 'Uq4RUwjfU_i_V308V45vV3DVV08yUxOjUq_iUjhRUbfRUTjRUM7hUFg2UAVAU7EzU5tZU6llU9bmUEQsUKlGUSFIUaKiUiSs',
    9892: 'UqH0UwmTU_vEV32_V4HmV3H7V0LHUxTqUrDBUjnyUbtrUTqaUMM5UFmvUAifU7L7U63FU6rBU9l0UEWFUKrtUSLNUaOWUiZW',
    9899: 'UpqHUwUAU_WkV2pVV3z-V34tV05yUxKQUr0lUjfxUbh-UThhUM8LUFacUAQ_U73aU5jSU6URU9MxUE5tUKUMURv-Ua4TUiA7',
    9906: 'UpcTUwAPU_HjV2XsV3kzV2rUU_taUx70UqpgUjUeUbWtUTYgUL_BUFTTUAIbU6z6U5ZdU6NAU99qUDzEUKDsURmvUZoXUi26',
    9913: 'UpXqUw7gU_GHV2WAV3nWV2rpU_zaUx9aUqyVUjZUUbhtUTf2UMB7UFZjUATxU715U5icU6MYU9EUUDs2UKCpURZ5UZhwUhm2',
    9918: 'UpGqUvx1U--mV2JVV3W5V2fNU_iTUwyyUqgqUjLYUbOXUTP4ULrmUFHnUA70U6k0U5LZU641U8vfUDc2UJyHURMKUZW0Uhbo',
    9920: 'UpCgUvsCU-wDV2F_V3QUV2bnU_bGUwuTUqY8UjG8UbF0UTJYULidUFDZU9_SU6iJU5FnU64cU8qHUDd3UJrJURLZUZMMUhXp',
    9927: 'Up5KUveyU-t3V26gV3TGV2YOU_kSUwwtUqmFUjL_UbUuUTPOULwsUFGQUA9rU6gwU5LyU5_nU8tIUDWrUJs5URFSUZKjUhSL',
    9934: 'UoscUvZzU-f6V23aV3I0V2Y0U_cNUwytUqgOUjPBUbPTUTRqULpcUFFkU9-gU6bBU568U5qfU8aFUDHvUJZFUQ_UUZ5iUhDy',
    9941: 'Uob7Uv8NU-LuV1dDV2ytV25lU_H3UwYfUqNXUj2vUbAzUTAOULfbUF2JU9tBU6PWU4zqU5e1U8NiUD2LUJGOUQinUYj2Ugvo',
    9948: 'UoWzUvDQU-MdV1kWV31TV2EBU_NjUwhLUqU_UjBkUbIwUTJbULo6UFBlU9_xU6XdU55MU5iDU8SKUD0UUJHJUQamUYhBUgk4',
    9955: 'UoK9UuzwU-9cV1XeV2qHV22dU_9NUwUqUqDwUiy8UazvUT06ULPEUErOU9arU6BEU4ghU5OsU83xUCnrUIy6UQQ-UYPcUge2',
    9962: 'UnuGUuX5UznAV17xV2ZOV1mAU_1mUwKgUqENUiuEUb31US-hULV5UEokU9eMU64cU4g8U5CyU7-wUCW-UIp5UQ6iUYDEUgI2',
    9965: 'Un-WUuZpUzqjV18FV2ZZV1k9U-_tUwICUqD4UitlUb4XUT1TULZdUEtwU9k3U69-U4kZU5GmU80uUCZDUIp4UQ8PUYCIUgKC',
    9969: 'UnyGUugRUzpPV1HfV2aUV1vwU_2MUwUXUqEvUj1uUb2mUT6oULSPUEtjU9XqU65cU4VaU5ATU7nsUCSgUIcBUQ25UY2mUgDv',
    9976: 'UndjUuCSUzU5V0o5V2ELV1QCU-isUw0nUpyDUieBUaqpUSoMULJWUEdnU9SIU5tyU4QfU4yoU7gpUCDJUIQdUPm7UXn7UfvI',
    9983: 'UnR9UuD1UzOEV0uEV2ECV1aAU-mVUwCnUq1UUiqSUavfUSz8ULMGUElfU9RvU5xtU4MvU4y8U7aIUC7xUIIgUPd1UXgFUflE',
    9990: 'UnMCUt_XUzIoV0j0V29UV1R9U-huUw49UpxcUigMUanZUSmuULBxUEXjU9FlU5jCU496U4jaU7KrUBwZUI28UPSIUXQ8UfeK',
    9997: 'Ump2UtXQUynNV0FoV1jDV12KU-MbUvnDUpiqUiSnUadhUSd2UL51UEPUU99tU5a2U42FU4WiU7AxUBdaUHpYUP2JUX6PUf8d',
}
