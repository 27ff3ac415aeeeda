# -*- coding: utf-8 -*-
"""reference month tables: five hex digits per lunar year from year 1 (bits 16-5: long months 1-12, bit 17: long leap month,
low four bits: number of the leap month), first Julian day of every tenth year; PUBLISHED: the table of 1900-2049 in circulation"""
YEARS = (
    '0ab50055b80555005aa00aea50aab005550000000ab500557a0555006aa00aba80aad00555006d55056a00aad012aa10d55005ad9055a00aabb0ad5506aa00ab5006ad20555016a9a056a00aad0056a60d55005aa00b5a30aaa00d55c0b550055a01aa68'
    '0aaa00b55005b54055600aaa00eaa10ad501555a0555006aa00aea60aad0055500b55305aa00aadc0aab00555005ad9056a00aab0152a50b550056a00d5610aaa00d56a0ad50055600ab570aaa00ad5014b53055500aabb05aa00ab50055b80555006aa0'
    '0aea50aab005550155410aaa00b56a0ab50055600ab5706aa00ad5014ad30555006abb05aa00aad0055b80555005aa00ada50aab00555013551056a00aae90aaa00b55005757055600aaa00daa40ad501556c055500aaa00ada80ab50055500ad5505aa0'
    '0ab5006ab20555016a9a056a00aab0056a60d550056a00b5a30aaa00d55c0ad50055a01aa580aaa00b55005b54055500aaa00eaa10ab501555a0555006aa01aaa60aad00555007553056a00aadc0aaa00d55005ad9055a00aaa01d2a50b550055a00d561'
    '0aaa00b56a0ab50055600ab5706aa00ad5014ad30555006abb05aa00aad0055b80555005aa00ada50aab00555013551056a00aae90aaa00b55005757055600aaa00daa40ad501556c055500aaa00ada80ab50055500ad5505aa00ab5006ab20555016a9a'
    '056a00aab0056a60d550056a00b5a30aaa00d55c0ad50055a01aa580aaa00b55005b54055500aaa00eaa10ab501555a0555006aa01aaa60aad00555007553056a00aadc0aaa00d55005ad9055a00aaa01d2a50b550055a00d561000001ab4b1aaab0aaa0'
    '0b6a60ad50055600b55306aa00ad5c0aad00555006ad9056a00aad0152a50d550056a00d5a10aaa00d56a0ad50055a00ab570aaa00ad5014b53055500aabb05aa00ab50055b80555005aa00aea50aab00555013551056a00aae90aaa00b5500575705560'
    '0aaa00baa40ad501556c0555006aa00ada80aad00555006d5505aa00aad006aa20d55015a9a055a00aaa00d6a60b550055a00b5530aaa00b55c0ab50055501aa5806aa00ab5005ab40555006aa00d6a10aab00556a0d550056a00ab670aaa00d55014d53'
    '055600aabb0aaa00ad50055d8055500aaa01aaa50aad0055500d55105aa00aaea0aab00555005b57055a00aab005aa40b550155ac055600aaa00b5a80ab50055600ad5506aa00ab5006ad20555016a9a056a00aad0056a60d550056a00b5a30aaa00d55c'
    '0ad50055a01aa580aaa00ad5005b54055500aaa00daa10aad00557a0555005aa00aba70aab00555015553055a00aabc0aaa00b550055d9055600aaa01b2a50ab50055600d55106aa00ab6a0aad00555006b57056a00aad014aa30d550056bb055a00aaa0'
    '0d5a80ad50055a00ad550aaa00ad5006b52055501aa9a05aa00ab50056b60555005aa00b6a30aab00555c0b550056a01aa680aaa00b55005d54055600aaa00eaa10ad501555a0555006aa00aea60aad0055500755305aa00aadc0aaa00d55005ad9055a0'
    '0aaa01d2a50b550055a00ad550aaa00b55006b52055501aa9a06aa00ab50056b60555006aa00b6a30aab00555c0b550056a00aae90aaa00b55015555055600aaa00eaa10ad500557b0555006aa01aca70aad0055500755305aa00aadc0aaa00d55005ad9'
    '055a00aaa01d2a50b550055a00d5510aaa00b56a0ab50055500ab5706aa00ab5005ab40555016aac056a00aab0055a80d550056a00ad650aaa00d55006d52055601aa9a0aaa00ad50056d6055500aaa00baa30aad00555c0d55005aa01aaa80aaa00d550'
    '05d55055a00aaa00eaa20b5501559a055500aaa00b6a60ab50055500b55306aa00ab5c0aab00555006ad9056a00aab0152a50d550056a00d5610aaa00d56a0ad50055600ab570aaa00ad5014ad3055500aabb05aa00aad0055b80555005aa00ada50aab0'
    '0555007552055a01aaaa0aaa00b55005756055600aaa00baa40ab501556c0555006aa00aba80aad00555006d55056a00aad006aa20d550056bb055a00aaa01d4a70ad50055a00b5530aad00555c0d55005aa00aaea0aaa00d550152d50555006aa00d6a1'
    '0aad00556a0d550056a00aba70aaa00d55014d53055a00aabb0aaa00ad50055d9055500aaa01aaa50ab50055500cae20a5501d29a0b2a00d55005757055a00a5d0055b3049b01a8dc0a5500aaa00b5a80ad5004da00aba40a570052b018972064b016a9a'
    '05aa00ab5014ae604ae0056a00b5630aaa00b55c0ad50055600aad906aa00ad50152d50555006aa00daa10aad00556a0d55005aa00aba70aaa00d550155530a9501b4ac06aa00ab60055e904b700457005575052b0069500755305aa01ab4b096d004ae0'
    '1a4e70a4d00d27005aa50b550056a00d5a1095d014ad9049b00a4d00d4d50aaa00b55006d5202da0095ec09570049b00a577064b006a901aaa406b5002b600ab6109370049f904a70069501693605aa006ad0056d204ae00a57c092d00ca70055570b4a0'
    '0b99005ea5096d0026e00c9d10a2d01b259069500aaa00aea60ab60055b00537302570152ab0d2a00ea5006d5805aa00ab5009b64093600c970149620d4a00ea6a0d55005aa01a9a60a6e0092e00aad30a5500d2bb06aa00b55015658055d0025d0095b4'
    '052d00a9500e9510aaa00b56a0ab5004ba00a7660a37005270069730553006aab0daa009b5002bd804ae00a5600d375049600d4b0135210d6a0056ea055d0025d00a5d5092d00a9500d9540ad200b5ac0aba0055b01497804570052b00aab50695006aa0'
    '0daa10ab6014b6a04ae00a570151660d2a00ea500755305ac01ab6c016e008ae00c5e80a9600d4a00daa50b550056a00d5a10a5d0092fa052b00a8d00d5570b2a00b55014d5304da00a5bc0a570052b00a9770653006aa00aea50ab5004b600cae10a570'
    '151690d1500d53006b37056a005ad0056d304ae00a2fb0a2d00d1500d5570b5200b5a005da4055b0049d0189b20a2b00aa7a06a500ad200b6c60ab60055b004b7304570062bc0d4b006a5016a5805aa00ab60056d4092e00c5600e9520d4a00d96a0b550'
    '056a00aba70a5d0052d00b2b30a9500d2bb0aaa00b550055d904ba0095b005575049b00a8b00e53106aa00ad6a06b5002b600a6e60a37005170161640d53005a9c0d6a0056d012ad804ae00a2e00d2d50c9500d5200f5220b5a0056ea055b0045d01a1b6'
    '0a2b00a9500b95406d200ad6c0ab60055b01457804570052b006aa50e95006aa00daa10ab600536b0cac00e5600d3570d2a00d95015553056a00a6dc095d004ad00a5b70a4d00b2601b2a50b550055a00aba1095b004af9049b00a4b00ab3706aa00ad50'
    '05b5302b600957c0a37005170164680d4b005a9006ea5056d002ae00a6e20a2e01c95a0a9500d4a00db270b5a0056d0035b3025d0192dc092b00a9500b4d90aca00ad501536504bb0025b00a572052b00697a0595006aa01aaa70ab6004b600aae30a570'
    '052bc0d2a00d55005ad9056a0096d004dd504ad00a4d00e4d20b2600b56a0ad50035a0097a6095b0049b00a9b40a4b01aa5c06aa006d5002dd902b500937004ae50c970064b0154a20da9006b6a056d0026e0192e6092e00c9600d9540d4a00d69c0ada0'
    '056d0126b9025d0092b00aab50a9500b4a00eaa10ad60155ab04bb0025b005377052b0069500755306aa00ab5c0a76004b600a5e80a5600d2600ea650d55005aa00b6a3096d004afb049d00a4d00d2d70aa500b55005d54035a0095d0115b1049b00a4f9'
    '064b00aa500b69606b5002da00ab62093700497c0c970064b006aa80da5005b401a6d402ae0092e00d2e20c9600d4d90d4a00d65015956055d0026d00a5d2092b00a97a0a9500b4a00b5a80ad50055b002b7402570052b00d2b10695006ad905aa00ab50'
    '04ed504b600a570144e30d2601e92b0d55005aa009ba8096d004ae00a9d40a4d00d2500f2520b5401d69a02da0095d0149b6049b00a4b00b4b406a500b53b06b400ab6019568093700497006974054b006a5c0da5005ac01ab5a026e0092e00cae60c960'
    '0d4a00f4a20d550056bb055b0025d0093d7092700a9501d1550b4a00b55012d5104db0025e90a570052b00aab60695006aa00baa30ab5004b7b04ae00a570052e70d2600e93006d5505aa009b50056d204ae01a4da0a4d00d2600d6560b5200d6a006da2'
    '095d0149dc049b00a4b00aab806a500b5400bb440ab60095b00537204970064f9054b006a5016c5705ac00ab60186e3092e00c97c0c9600d4a00daa80b550056a00adb5025d0092e00d2b20a9500d4d90b2a00b5500575704da00a5b005574052b01a93c'
    '0693006aa00ada80ab5004b600aae40a57005270152620e53006cba056a005b5014ad604ae00a4e00d4d40d2600d53b0b5200b6a0156a905570049d01a1b50a4b00aa500ea510b5200b5aa0ab60095b004b7604970064b00b4b306a5006b3b05ac00ab60'
    '12ad8049e00a4d00d4b50b2500b5200f5220b5a0095ea095b0049b00a5760a4b00aa500ba5406d400ad6c0ab6009370149b804970064b006ca50da5005aa00d6c10a6e0092fb092e00c9600d5570d4a00d55015553056a00a6d00a5d1092b00a5b80a950'
    '0b2a01b2a50ad5004da00cba10a570052f9052700693006b3706aa00ab500575304b600a67c0a2e00d1600e9680d4a00daa005ea5056d004ae0185d20a2d00d17a0aa500b5200d7470ada0055d0053b3045b00a2b01a2b10aa500b55906b200ad6015365'
    '09370045700a573052b006a6a0d95005aa01aac70a6e0052e00cae30a5600d2bb0d2a00d55005ad9056a00a6d0055d5052b00a8d00e5520b2a00b56a0ad5004da00a7a60a570051b01a1740653016a9c05aa00ab5002bd902b600a370052e50d1600e4b0'
    '075230daa015b4b056d002ae00a3d70a2d00d1500d9540b5200b69c0ada0055d0125b9045b00a2b00aab50a9500b5200eaa10ab60055bc04b700457005377052b0069501695405aa00ab5c0a6e004ae00a5e80a5600d2a00eaa60d550056a0195a2095d0'
    '04afb049b00a4d00d2d70b2a00b55005d5402da0095b011571049b00a4f9064b006a900aea606b5002b600aae2093701496b0c9600e4d006b270daa005ad0036d3026e0092e00d2d20c9500d4d90b4a00b690155a6055b0025d00a5b2092b00a97a06950'
    '074a00b5a80ab60053b002b7402570052b00d2b10695006ad905aa00ab5004ed504ae00a370144e30d2a01d94b0b550056a0097a7095d004ae00a9b40a4d00d2501aaa10b550056d902da0095b004b75049700a4b00b4b406a900ad5c05b5002b60095e8'
    '092f004970069640d4a00ea5c0d690056d012b5a026e0092e00cad60c9500d4a00f4a20b590056dc055b0025d0093b7092b00a9501b15506ca00ad5012b6104bb0025f902570052b00aaa60e95006aa00baa30ab5004b7b04ae00a570052d70d2600d950'
    '05d55056a0096d0055d204ae00a4fa0a4d00d2500d6960b550035a00aba2095b0149bc049700a4b00b2b806a5006d401ab5402ba009370052f204970064e90d4a00ea5013aa6056d002b60185e3092e00c97b0a9500d4a00daa80b550056b002da40a5d0'
    '092d00d2b20a9500b4d906aa00ad500575604ba00a5b014573052b01a94b0e95006aa00ada809b5004b600aae40a4f0052601d2620d55015a9a056a0096d0149d6049e00a4d00d4d40d2500d53b0b5400b5a0195a8095b0049b00a9740a4b00aa500ea51'
    '06d400adbb02b600937004af604970064b0164a40da5006b20196c20ab60192d6092e00c9601d1550d4a00da5015553056a00a7a70a5d0092d00aab60a9500b4a00baa40ad50055a018ba20a5b005377052b0069301715506aa00ad5005b5304b600a5e8'
    '0a4e00d2600ea660d5200daa0166a4056d004ae00a9d30a4d00d2b70b2500d5201d5450b5a0055d0055b3049b00a5770a4b00aa500b65606d200ada005b64093700497006973064b006aa70da5005aa00aec50aae0092e00d2e30c9601d4580d4a00d550'
    '15956056a00a6d0055d4052d00a9501c9530b4a01b4a70ad50055a01a3a50a5b0052b01a1740693006ab906aa00ab5004f5604b600a570052e40d1600e930075230daa015aa7056d004ae01a1d50a2d00d1500da540b5200d6a90ada0055d0129b6045b0'
    '0a2b00b2b50a9500b5201ab220ad6015567053700457006575052b0069500795305aa00ab6a0a6d004ae00a6e60a5600d2a00eaa50d55005aa00b6a30a6d004bd704ab00a8d00d5550b2a00b55005d5404da0095d005572049b00a976064b006a900baa4'
    '06b5002ba00ab6209370052e60d1600e4b006d250da9005b50036d302ae00a2e00e2d20c9500d5560b5200b69005da4055d0025d00a5b30a2b01a8b70a9500b4a01b2a50ad50055b002b7402570052f9052b00695006d5605aa00ab50056d404ae00a570'
    '145530d2a01e8a70d55005aa00ada5095d004ae00aab40a4d00d2b80b2900b5500575702da0095d004d75049b00a4b01a4b306a900ad9806b5002b60193650937004970069640e4a00ea6a0da9005ad012ad602ae0092e00cad50c9500d4a01d4a30b690'
    '057a7055b0025d0095b5092b00a9500d9540b4a00b55006d52055b00277602570052b00aaa50e95006aa00baa30ab5004bd804ae00a570054d50d2600d95016554056a009ad0055d204ae00a5b60a4d00d2501d2550b5400d6a00ada2095b01497704970'
    '0a4b00b4b506a5006d401ab5402b6009570052f204970065660d4a00ea5016a9505ad002b60186e3092e01c8d70c9500d4a01d8a60b550056a01a5b4025d0092d00d2b20a9500b55706ca00b5501535504da00a5b014573052b00a9a80e95006aa00aea6'
    '0ab5004b600aae40a570052600f2630d95005b57056a0096d004dd504ad00a4d00d4d40d2500d5580b5400b6a0195a6095b0049b00a9740a4b00b27a06a5006d400af460ab600957004af504970064b0074a30ea5006b5805ac00ab60096d5092e00c960'
    '0d9540d4a00da5007552056a00abb7025d0092d00cab50a9500b4a00baa40ad50055d904ba00a5b015176052b00a9300795406aa00ad5005b5204b600a6e60a4e00d2600ea650d53005aa0076a3096d004afb04ad00a4d01d0b60d2500d5200dd450b5a0'
    '056d0055b2049b00a5770a4b00aa501b25506d200ada014b6309370049f804970064b0168a60ea5006aa01a6c40aae0092e00d2e30c9600d5570d4a00da5005d55056a00a6d0055d4052d00a9b80a9500b4a00b6a60ad50055a00aba40a5b0052b00b273'
    '069300733706aa00ad5014b5504b600a570054e40d1600e9680d5200daa016aa6056d004ae00a9d40a2d00d1500f2520d5200db270b5a0055d004db5049b00a4b00d4b40aa500b55906d200ad6005766093700497006974054b006a5007a5306aa01aaa7'
    '0aad0052e00cae50a9600d4a01e4a40d95005abb056a00a6d0151d6052d00a8d01d1550b2a00b55006d52055a01a5a70a5b0052b00a975068b0072900baa406b5002dbb04b600a570052e60d1600e8b006d250da9005b50036d302ae00a3d70a2d00d150'
    '0d5560b5200d690155a4055b002afa045b00a2b00aab60a9500b4a01b2a50ad50055b002b730457006377052b00695006d5605aa00ab50056d404ae00a570065620d2a00eaa60d55005aa00aea50a6d004ae00aab30a4d00d2b70b2900b5501555602da0'
    '095d0145b4049b00a4f9064b006a900b69606b5002b6009b640937004970069630e4a00eaa70da9005b5002ed502ae0092e01c2d40c9500d4d90b4a00b690057a7055b0025d0095b5092b00a9501c9530b4a00b5a80ad50055b01237502570052b01a2b4'
    '0695006cbb05aa00ab5014ad604ae00a570054d50d2600e9500755305aa00aba7095d004ae00a5b60a4d00d2500da550b5400d6a00ada1095b004b77049b00a4b00b4b506a500ad401ab5302b60195680937004970065660e4a00ea5016a9405ad002b60'
    '0aae2092e00cad60c9500d4a00dca50b650056a00b5b3025d0093b7092b00a9500b556074a00b55005d5404da00a5b006572052b00aaa60e95006aa01aaa50ab5004b600aae30a570052d70d2600d95016956056a009ad0145d404ad00a4fa0a4d00d250'
    '1d4570b5400b6a0195a5095b0049b00a9730a4b00b2b806a5006d400b7460ab6009570142f404970064b0074a30ea5016c5705ac00ab60096d5092e00c9600d9540d4a00daa80b550056a01a9b6025d0092d00cab50a9500b4a00f4a10b5501555704ba0'
    '0a5b005575052b00a9300795406aa00ada80ab5004b600a6e60a570052600ea650d9200daa0156a2096d004bd704ad00a4d00d4b50d2500d5201d5440b5a0056ea095b0049b00a5760a4b00b2500ba5406d200ada006b620937004af604970064b006ca5'
    '0ea5006b200bac30ab60093d8092e00c9600d5560d4a00da5005d55056a00aad0065d2052d01a8b70a9500b4a01b2a50ad50055a00aba30a5b01527805270069300753606aa00ad5014b5404b600a570144e30d2601e8670d5200da9006ea5056d004ae0'
    '0a9d40a4d00d2b80d2500d5200db270b5a0056d004db5049b00a4b01c4b30aa500b55806d200ad6015365053700497006974064b006aa80ea5006aa01aaa60aad0052e00cae50c9600d4a00f4a30d95005b57056a00a6d0055d5052d00a9500d9540b4a0'
    '0b56a0ad50055a00a7a60a5b0052b00a97506930072901aa9306d5012d5704b600a570052e50d1600e8b0165240da9006b6a056d002ae00a5d60a2d00d1501d1550b5200da90075a2055b002bb7045b00a2b00b2b50a9500b5200bd240ad50055b005371'
    '0457016176052b0069501695505aa00ab5014ad304ae01a4e70a5600d4a00eaa60d95005aa01a6a40a6d004ae00cab10a8d00d4b70b2900b55015555035a0095d0055b3049b00a977068b006a900b69606b5002da009b6409570051e80d1600e4a00eaa7'
    '0da9005b5002ed502ae0092e00d2d40c9500d5570b4a00b69015996055b0029d0095b40a2b01a9390a9500b4a00b6a60ad50055a00ab7402570052b00b2b30695006d5705aa00ab50056d504ae00a570055540d2600e96a0d55005aa01aaa7096d004ae0'
    '1a1b50a4d00d2501d2530b5401d65802da0095b014976049b00a4b00b4b406a500b55b06b5002b60097660937004970161650e4a00ea5007a9305ac00abd802ae0092e00cad60c9500d4a00dca50b650056a00d5b1025d0093b7092b00a9501d155074a0'
    '0b55014d53055a01a5680a570052b00aaa60e95006ca01aaa40ab5004b6018ae20a570052d70d2600e9200ed5505aa009ad0056d304ad00a5b70a4d00d2500da560b5400d6a009da4095b004ab00a9730a4b00b2b706a5006d401b3450ab60095b005373'
    '04970065670d4a00ea5006e5605ac00ab60096d4092e00c9600e9530d4a00daa70b550056a00ada50a5d0092d00d2b30a9501b458074a00b5501555604da00a5b005574052b00a9301693306aa01aca70ab5004b601a2e50a5600d2601e2640d9200dac9'
    '0d6a009ad0149d604ad00a4d00d4b50d2500d53b0b5400b6a0057a7095b0049b01a1750a4b00b2500ba5406d200adc90ab600957004af604970064b006ca50ea5006d2019aa20ab50152d7092e00c9600d5560d4a00da5015554056a01aaa80a5d0052d0'
    '0aab60a9500b4a01b4a50b550055a00aba30a5b00537705270069300753606aa00ad5005b5304b600a5e80a4e00d2600ea660d5200da9006ea5056d004ae00aad30a4d00d2b70d2500d5201d9260b6a0056d0055b3049b01a4780a4b00aa500b65606d20'
    '0ad6005b64053700497006973064b006aa70ea5006b200aea60ab50053601c2e40c9600d4d90d4a00da5005b57056a00a6d0055d5052d00a9501c9530b4900b5a80ad50055a01a3a50a5b0052b01a17406930072b906a9006d5002f5604b600a570054e5'
    '0d1600e9200f5230da9006ba8056d002ae00a5d60a4d00d1500d9550d5200daa90b590056b002bb7049b00a2b00b2b50aa500b5201ad230ad5015567053700497006576054b006a500795406aa00ab6a0aad0053600a6e60a9600d4a00eca50d95005aa0'
    '0b6a30a6d004bd704ab00a8d00d4b60b2900b5400dd54055a0095ea095b0052b00a976068b0072901b29506d5002da018b6309570150e70d1600e8a01e8a60da9005b50126d402ae0092fb0a2d00d1500d5570b4a00da9005d95055b002ad0185b30a2b0'
    '0a9b80a9500b4a01b4a60ad50055a00ab640a570052f9052b00695006d5705aa00ab50152d504ae00a570055540d2600e9a80d95005aa01aaa6096d004ad00aab40a4d00d2b80b2500b5400d75702da0095b004db5049b00a4b00b4b406a500b59806d50'
    '02d60097660937004970069640e4a00ea6a0da5005b401aad702ae0092e00cad50c9500d4a01d4a30b65015658055b0029d0191b6092b00a9500d9540b4a00b56a0ad50055a00a7660a570052b00aaa50e95006ca00baa30ab5004bd804ae00a570150d6'
    '0d2600e9200ed450daa009b50056d204ad00a5b70a4d00d2500da550b5400d6a018da3095b014a78049700a4b01b0b606a50075200bb440ab60095b00537204970065670e4a00ea5006e5605aa00ab6009ad4092e00c9d80c9500d4a00daa70b650056a0'
    '0ada50a5d0092d00b2b30a9500b557074a00b5501555504da00a5b005574052b00a9680e93006aa00aea60ab5004b600aae40a5600d27b0d2600d9200eb470daa005ad004ed504ad00a4d00d4b40d2500d9580b5200b6a0155a6095b0049b00a9740a4b0'
    '0b27a06a5006d201b5470ab60095b004b7504970064b0164a40ea5006d5905aa00ab50152d6092e00c9601d1550d4a00da5007552056a00aba70a5d0052d00aab60a9500b4a01b4a40b550056d904da00a5b01517605270069301713506aa00ad5006b52'
    '04b601a4e70a4e00d2600ea560d9200da90166a405ad014ad804ad00a4d00d2b70d2500d5200dd250b6a0056d0035b3049b00a5770a4b00b2500b65606d200ad5005b6405570049e80c970064b006aa70ea5006d201aaa50ab50053600b2e30c9600d557'
    '0d4a00da5015956056a00aad0055d4052d00a9b80a9300b4900b6a60b550055a00ada40a5b0052b00b273069300753706a9006d5002f5602b600a570054e40d1600e9590d5200da9016aa7056d002ae01a2d50a4d00d1501d2530d5201da280b590056b0'
    '129b6049b00a4b00b4b40aa500b55906d200ad5005756053700297016175054b006a5007a5406aa00ada80ab50053600aae60a9600d4a00eca50d95005ad9056a00a6d004bd7052b00a8d01d0b50b4900b5401cd53055a0195a8095b0052b00a976068b0'
    '072900ba9406d5002dbb02b6009570052e60d1600e8a00eca50da9005b400b6d302ad0095d70a2d00d1500d5560b4a00da9015594056b002afa025b00a2b00aab60a9500b4a01b4a50ad50055a00b3630a57005377052b00695006d5606aa00ab5005ad4'
    '04ae00a570065520d2601e8670d95005aa00aea5096d004ad00aab30a4d00d2b80b2500b5401d556035a0095b0145b4049b00a4f9064b006a501749706d400ad60193650957004970069640e4a00eaa80da5005b401aad602ad0092e00cad50c9500d4d9'
    '0b4a00ba5005b57055a00aad0095b5092b00a9500d9540b4a00b5a80ad50055a00a7660a570052b00aa650e93006cbb05aa00ab5014cd704ae00a5600d4d50d2600e9200f5430daa009ba8096d004ad00a5b60a4d00d2500da550b5200b6ac0ada0095b0'
    '04b77049700a4b00b4b506a50075200bb440ad60095e90937004970065660e4a00ea5016a5505aa00ab500aad2092e01c8d70c9500d4a01d8a60b650056a00b5a30a5d0192b8052b00a9500b556074a00b55005d54055a00a5b006572052b0168670e930'
    '06ca00aea60ab5004b600aae40a5600d2d80d2600e9200eb270daa005b5004ed504ad00a4fa0a4b00d2500d9580b5200b6a0155a5095b004ab00a9740a4b00b2b806a50075200b7260ab60055b004b650c970064b0074a30ea5006d5805aa00ab50056d5'
    '092e00c9600d9540d4a00daa80b550056a00aba70a5d0052d00aab50a9300b4ba074a00b5500575704da00a5b00557505270069300793406a9016d2906b5004b600a6e60a5600d2600ea550d9200da9c0daa005ad002bd704ad00a4d01d0b60d2500d520'
    '1d5240b6a0056ea055b0049b00a5760a4b00b2501b25506d200ad5006b6205570148e70c970064b0168a60ea5006d201aaa40ab50053d8052e00c9600d5570d4a00da5005d55056a00aad0145d3052d00a9b80a9300b4900b6960b550056a00ada40a5b0'
    '052f905270069300753706a9006d5012b5502b600a570144e30d1600e9580d5200da9016a9605ad002ae00aad40a4d00d1b80b2500d5200db270b690056b002db5029b00a4b00b4b40aa500b55806d200ad5005756055600a97006974054b016a290ea50'
    '06aa01aca70ab50053600aae50a9500d4a00f4a30d95015a58056a00a6d0149b6052b00a8d00d8b40b4900b55a0b550035a009766095b0052b00a975068b00725007a9406d401ad5802b6009570052e60d1600e8a00eca50da9005b5a056d002ad0095d7'
    '0a2d00d1500d5560b4a00da9015593056a01aab8025b0092b00aab60a9500b4a00bca40ad50055bb053600a57005377052a00e9500755606aa00ad5014b5304b600a5d80a5500d2600ea560d9400daa00aea5096d004afa04ab00a4d00d2b70b2500b540'
    '1b5450b5a0095b0055b3049b01a478064b0072500765606d400ad6009b6409570149690c9600e4a00eaa70da5005b400aec50aad0092e00d2d30c9501d4580b4a00ba5015956056a00aad0055b4052b00a97a0a950074a00b6a70ad50055a01a3650a570'
    '052b0162640e93016c5805aa00ab5004ed604ae00a5600d4d50d2600e9590d5200daa005ba8096d004ad00a5b60a4b00d2501d2540b5200b6c90ada0095b014976049b00a4b00b4b506a500753b06d400ad6019567093600c970065660e4a00ea5016a54'
    '05b200aba80aad0092e00cad60c9500d4a00dca50b65005abb055a00a6d0053b7052b00a9500b556074a00b55005d54055a00a5e90a570052b006a660e93006c9016aa50ab5004b600aae30a5600d2d70d2500e9201e9260daa005b50056d304ad01a4b8'
    '0a4b00d2501d8570b5200b69005da4055b004ab00a9730a4b00b2b706a50075200b7260ad60055b0143640c970164680d4a00ea5016c5705aa00ab50056d5092e00c9601c9530d4a00daa80b550056a01a9a60a5d0052d01a2b40a9300b4b9074900b550'
    '0575704da00a5b005575052700693c0e93006a9006da806b5004b600a6e60a5600d2600ea550d9200daa90daa005ad012ad704ad00a4d00d4b50d2500d53b0b5200b690156a8055b0049b00a5760a4b00b2500ba5406d201b5290ab50055600ab660c970'
    '064b006ca50ea5006d200baa30ab50053d8052e00a9500d5560d4a00da5015554056a00aaea0a5d0052d01a8b70a9300b4900bc950b550036a00ada20a5b0053770527006930075260ea9006d401ab5402b601a5690a4e00d1601e8570d5200da9006e96'
    '05ad002ae018ad30a4d00d1b80b2500d5201d9260b690056b0125b4029b00a4f9062b00aa501b45706d200ad5015355055600a97014973054a00eaa80ea5006ca00aea60ab50053600aae50a9500d4d80d4900d9400db57056a00a6d004db5052b00a8d0'
    '0d8b40b4500b5980b5400b6a019566095b004ab00a975068b0172290ea9006d401ad5702b600957004ae50d1600e8a00f4a30da9005b98056d002ad0096d6092d00d1500d9540b4a00ba6a0b550056a00abb7025b0092b00aab50a950074a00bca40ad50'
    '15558053600a57015176052600e9301715506aa00ad6a0ab5004b601a4d70a5500d2600ea560d9400daa0076a3096d014ab804ab00a4d01d0b60b2500b5200bd450b5a0095bc095b0049b00a577064b0072500765606d400ada005b64095600c9e80c960'
    '0e4a00eaa70da5005b200aea50aad0092fb092d00c9500d5570b4a00ba5015956056a00aad0055b4052b00a9b80a950074a00b6a70ad50055a00ab640a570052e90d2600e93006d3705aa00ad5004ed604ae00a5600d4d40d2500e9580d9200daa015aa7'
    '096d004ad01a1b50a4b00d27a0b2500b5200b7470b5a0055b004d75049b00a4b00b4b406a500755906d200ad6005766093600c970161650e4a00ea6a0da5005b200aba80aad0052e00cad60a9500d4a01d4a40ba5005ad9056a00a6d0151b6052b00a950'
    '1b135074900b56a0ad50055a01a5670a570052b006a660e93006c9016aa406b5004dd804ae00a5600d2d70d2500e9200ed250da9005b50056d104ad00a5b70a4b00d2500da560b5200b69005da4055b004af904970064b00b2b706a50075201b3250ad50'
    '055a00d3630c970065670d4a00ea5006e5605aa00ab5005ad4052e00a9d80a9500d4a00daa70b65005aa00ada50a5d0052d00b2b30a9300b537074900b5501555604da00a5b00557405270069690e93006c9016c9706b5002b601a2e50a5600d27b0d250'
    '0d9201da280da9005ad012ad604ad00a4d00d4b40b2500d5590b5200b69005797055b0029b01a175064b00b27a06a50075200b5a80ab50055a00ab660c970064a00eca50ea5006d5905aa00ab50152d7052e00a9500d5560d4900da5b0b550056a01aaa8'
    '0a5d0052d00aab60a9300b4900bc950b5400b6d902da00a5b0053770527006930075260ea9006d400bb5302b60095e80a4e00d1600ea560d5200da9016a9505ad002afa02ad00a4d01d0b70b2500d5200dd250b690056a00b5b3029b019478062b00aa50'
    '0765606d200ad5005b54055601a9690a970054a00eaa70ea5006ca00aea60ab50053600b2d30a9500d4d80d4500d9400db470d6a009ad0145b404ab01a8b90a8b00b4501b497075400b6a019565095b004ab01a174068b0072a80ea9006d400af5602b60'
    '0957004ae50d1600e8d90d4a00da5005b9805aa00aad0096d6092d00c9500d9540b4a00baa80b550056a01a9a60a5b0052b00aab506950074d906ca00ad5015557053600a570055650d2600e930079440eaa00ada80ab5004b600a6d60a5500d2600ea55'
    '0d9200daab0d6a0096d004bb704ab00a4b01d0b60b2500b5201b5440b5a0055e9095b0049b00a576064b0072501725506d400adab0ab60095601c8e70c9600e4a01e8a60da5005b200b6a30aad0152d8092d00c9500d5570b4a00ba5005d55056a00aaea'
    '0a5b0052b01a8b706930074a01b4a60ad50055a00ab640a570152680d2600e93006d270daa006d5014ad504b600a57b0a4d00d2500e9580d9200daa015aa6056d004ad00aab40a4b00d2b80b2500b5200b7270b5a0055b004db5049b0064f9064b006a50'
    '0755806d200ad5005756053600c970069640e4a00eaa80da5005b201aaa70aad0052e00aad50a9500d4bb0b4a00ba5015a58056a00a6d0151b6052b00a9500b934074901b5290ad50055a00a7660a570052b006a650e9200ecaa0da9006b5002dd804ae0'
    '0a5601d0d60d2500e9201e5240da9015b29056d004ad00a5b70a4b00d2500da550b5200b6aa0ad90055b002b7704970064b01b0b606a50075200bd240ad50055d9053600c970065670d4a00ea5006e5605aa00ab5006ad2052e00a9d80a9500d4a01d896'
    '0b65005aa01a5a40a6d0152b9052b00a9300b537074900b5401b55502da00a5b01457305270069680e9200ec9006e9606b5002b6009ae40a5600d2d80d2500d9200db270da9005b400aeb502ad00a4d00d4b40b2500d5580b5200b69015556055a00a9b0'
    '0a974064b01aa3906a50075201b4a70ad50055a00ab650a970054bb0d4a00ea5006d5805aa00ab50152d6052d00a9500d9540d4901da190b5400daa00aba70a5d0052d00aab50a9300b47a07490075401b65802da0095b01517605270068b0170a50ea90'
    '06d5a05b400ab60194d70a4e00d1600e9560d5200da9007a9205ac00abb802ad0094d00d2b60b1500d5200dd250b650056d9055a00a9b005377052b00a9500765606ca00ad5014b53055600a9e80a5600d2a00ea670ea400eca01aaa50ab5004b7b04ad0'
    '0a5500d2d70d4500d9201d9460d6a009ad0055b304ab01a8b80a8b00b2500b656075400b6a005d64095b004af905170068b0072a70ea5006d400af460ab60095600d2e30c9601e4580d4a00da5015c5705aa00aad0152d5092d00c97a0a9500b4a00baa8'
    '0b650056a00ada50a5b0052b01a2b4069501745806ca00ad500575604d600a570055650d2600e9690e9200eaa006da80ab5004b600a6d60a4d00d2501e2540d9200dac90b6a0056d004bb704ab00a4b00d4b50b2500b559075200b5a005767095b0049b0'
    '0a576064b00725007a5406d200ada90ab50055600cae60c9600e4a00eca50da5005b3b056a00aad0053d7052d00a9500d5560b4a00ba5015554056a01aaa90a5b0052b00aab606930074901b4a50ad50055bb04b600a570053670d2600e9200ed260da90'
    '06d5003ad304b600a5d80a4d00d2501e8570d9200da9005ea5056d004afa04ab00a4b00d2b80b2500b5201b9260b5a0055b0125b4049b0064f9064b006a501745706d200ad5015355053600c97c0c9500d4a00eaa80da5005aa01aaa60aad0052e01a2d4'
    '0a9500d4b90b4900ba5005b57056a00a6d0055b5052b00a97906930074900b59806d50035a00a7660a570052b006a650e9200eca90da9006d5012cd702ae00a5600d4d50d2500e93b0d5200da9005b98056d002ad00a5b60a4b00b2500da550b5200b6a9'
    '0ad90055b002b7704970064b00b4a50ea500753b06d200ad5015558053600a970055560d4a00ea5016a5505aa00ab6a0aad0052e01a8d70a9500d4901d8960b6400daa00d6a10a6d0152b8052b00a9300b53607490075400bd5402da0095e90a57005270'
    '168670e9200ea9006e9606b400ab600aae20a5600d2d80d2500d9200db270da9005b401a6b402ad0194b90a4b00b2501d457075200b69015555055a00aab006972054b00aaa80ea50075200b6a60ad50055a00ab650a9600d4d90d4a00ea400ed470daa0'
    '0ab50056d5052d00a9500d9540d4500da980b5400daa005ba7095b004ad00aab50a8b01b43907450075400b7470ada0095b004d7505170068b0078a40ea5006d9805b400ab60096d6094e00d1600e9550d4a00da6a0ba9005aa00aba80aad0092d00cab6'
    '0a9500b4a00f4a10b650056d9055a00a9b015176052b0069501715506ca00ad6a0ad50055601a4e70a5600d2a00ea660e9200ecac0daa00ab5004bd804ad00a5500d2d70d2500d9200dd450b6a005aea095b004ad00a5b70a4b00b2500b656075200b6a0'
    '06d62095b014a680c970064b0072a70ea5006d201ab250ab600557b092e00c9600e5570d4a00da5005e5605aa00ab5005ad4052d00a9b80a9500b4a00baa70b650056a00ada50a5b0052f9052b0069300753706ca00ad500575604d600a570055640d260'
    '0e9580e9200ea9016ca705b5004b601a2d50a4d00d27a0d2500d9201da280b6a0056d0149b604ab00a4b00d4b40b2500b559075200b69005767055b0049b016175064b006a6a0ea5006d201ad280ab50055600cae60c9600d4a01e4a40da5005b5905aa0'
    '0aad0152d7052d00a9501d1550b4900ba6a0b550056a01aaa80a5b0052b00aa7606930074900bc9406d50035d904b600a570053670d2600e9200ed260da9006d5c05b5002b600a5d80a4d00d2500da560d9200da9015694056d012ab904ab00a4b00b2b7'
    '0b2500b5200bd250b590055bb055a00c9b006577064a00ea500765606d200ad5005b54053600a9e80a9500d4a00eaa70da5005aa00aea50aad0052fb052d00a9501d4380b4900ba401d956036a00a6d0055b4052b00a97906930074901749706d50035a0'
    '193650a570052bc0d2600e9201ec280da9006d400aed602ae00a5600d4d40d2500d9590d5200da9005b98056b002ad0095b60a4b00b27a0aa50075201b6280ad50055a01a9660a970064b0074a50ea500755906d200ad5015557053600a9600d5560d4a0'
    '0ea5b0da400daa00aba80aad0052d00aab60a9500d4900dc950b5400dac90b6a0096d004bb7052b00a9300b536074900755b06d400ada0195680957005270069660e8a00ea9016a9505b401ad5a02ad0095600d2d70d1500d8a01d9260ba9005b5b056a0'
    '0aad0194b8094b00b2501b457075200b69005d54055a00aae90a970054b006aa70ea50075200b6a60ad50055a00ab630a5601d4580d4600ea200ed470daa006b50146d404ad01a5390a8d00d4500da580b5400baa0159a6096b004ad00aab30a8b00b4b8'
    '07250075400b7470ada0055b004d650c970068e90e8a00ea5006d5805b400ab50056d6094e00c9600e9540d4a00daa80ba5005aa01aaa70aad0052d00aab50a9500b4d9074a00b65015658055a00a5b005575052b00693c0e93006ca006da80ad5005560'
    '0a7660a5600d2a00ea550e9200ecaa0daa005b5004bd804ad00a5501d0b60d2500d93b0b5200b6a015aa9055b004ad00a5b70a4b00b2501b255075200b6ab0ad60055b004b670c970064b0170a60ea5006d200bb230ab50055d8052e00c9600d5570d4a0'
    '0da5005e5605aa00ab6a0aad0052d00a9b80a9500b4901b8960b650056a00b5a30a5b0052f9052b006930075270ec9006d501335504d600a57c0a5600d2600e9580e9200ea9006ea605b5002b600aad40a4d00d2b80d2500d9200db270b690056d002db5'
    '04ab00a4f9064b00b25007558075200b69015556055a00a9b006974064a00eaa80ea5006d201aca70ab50055600aae50a9601d49a0d4a00da5005b5805aa00aad0152d6052d00a9500d9340b4901ba190b550056a00a7a70a5b0052b00aa7506930074aa'
    '0ec9006d401b55802b600a570151660d2600e9201e9250da9016d1905b5002b601a4d70a4d00d2500da560b9200baaa0b690056c01aab802ab00a4b01b0b60b250075200bd250b590056d9055a00a9b006577054a00ea500765606d200ad5c0ab5005360'
    '0a9d80a9500d4a00ea970da400daa01a6a40aad0152d9052d00a9500d5370b4900ba400bd450b6a0096dc0a5b0052b00a97806930074900769606d400ada009b64095600d2e90d2600e9200ed270da9005d400aec60ab500957b0a4d00d2500d9580b520'
    '0ba9015a97056a00aad0059b4064b01b23906a50075200b7270ad50055a00ad650a970054bc0d4a00ea500755806ca00ad5005756053600a9601d1550d4a01ea190da400daa006ba809ad004ad00aab60a9500d47a0b4500b5400bac90b6a0096b004bb7'
    '052b00a8b01b0b5074500755a06d400ada015567095600ca70069660e8a00ea5c0da9005d400ada80aad0095600cad60d1500d4a00dca50ba9005b59056a00aad0055b7052b00a9500b556074a00b65c0ad50055a00aae90a570052b006aa60e930074a0'
    '172a506d501559a04b600a5600d3570d2600e9200ed260daa005b50056d304ad00a5b80a4b00d4501d8570b5200baa005da5056b004afa04ab00a4b00b2b807250075201b5460ada0055b0055630c970164680e4a00ea5016c5705b200ab50152d505360'
    '1c95a0a9500d4a00daa80ba5005aa01aaa60aad0052d00b2b30a9500b4b9074a00b65005757055a00a5b005575052b0069690e93006c9006da806d5002da00a7660a5600d2601e2540e9200eca90daa005b5012ad704ad00a5500d4b50d2500d9590b520'
    '0b69015aa8055b004ad00a5b6064b00b2500ba54075200b6a90ad50055a00ab670c970064a00eca50ea5016d1a05b200ab50055d8052e00a9600d5560d4a00da5015a5405aa01ab290a6d0052d01a8b70a9300b4900bc950b650036bb035a00a5b015278'
    '052b006930075260ec9006d400bd5402d600a5e80a5600d2601e8570d9200da9006e9605b5002b7b02ad00a4d00d2b80b2500d9200db270b690056c00b5b302ab00a4f9064b00725017457075200b69015555055a00a9bc0a9600e4a00eaa80ea5006d20'
    '0aea60ab50055601a2e40a9500d4d90d4900da400db480daa00ab50056d5052d00a97a0a9300b4900ba98075400b6a0195a6095b0052b00aa7506930074a90ec9006d401b55702b6009570055650d2601e91a0d9200da9005d9805b400ab50096d60a4d0'
    '0d2500da550b5200baa90b690056a00aba70aab0054b00b4b506a500753b075200b59015658055a00a9b0055660d4a00ea501725506d200ad6a0ab50053601a8d70a9500d4a01e8960da400daab0d6a009ad014ab8052d00a9500d5370b4500ba400bd45'
    '0b6a0056ea095b004ab01a877068b0074500769606d400adac0ab60095600cae80d2600e9200ed270da9005d401aac40ab5015559094d00d1500d5580b5200ba9015a56056a00aadc0a9b0052b00a9b806a50075200b6a70ad50055a00ad650a970052e9'
    '0d2a00ea30075280eca006d500575604b600a57b0a5500d4500ea580da200daa015aa705ad004ad00aab40a4d01d4390b4500b5201ba480b6a0056b0149b604ab0064b00e8b1072500755906d200ada005766055600c970161650e4a00ea6a0da5005d20'
    '0ada80aad0055600aad60a9500d4bb0b4a00ba5005b59056a00aad0053b7052b00a9501b135074900b66a0ad50055a01a6680a570052b006a660e9200f49c0eaa006d5002dd904b600a5600d2d70d2500e9200ed260da9005b6a056d004ad00a5b80a4b0'
    '0b2500da560b5200ba9c0b6a0056b014ab9049b0064b00b2a70ea50075201b5250ad901559a055600c970065570d4a00ea5006e5605b200ab5006ad2053600a9d80a9500d4a00daa70ba5005aa00aea50aad0052fa052b00a9501b438074900b6401b556'
    '035a00a5b005574052b0069690e9200ec9016c9706d5002da01a3650a5601d25a0d2500d9201dc280da9005b5012ad602ad00a5500d4b40b2500d959075200b69005b97055a00aab0161b5064b00726a0ea50075201b6280ad50055a00ab660a9600d4a0'
    '1e4a40ea5006d5905aa00ab50154d7052d00a9500d5560d4900da5a0ba400daa00aba80a6d0052d00aab60a9300b4900bc95075400b6d902da0095b005377052b006930075260ec9006d5a05d400ad60095e80a5600d2600ea560d9200da9007a9205b40'
    '1ab3902ad00a4d00d2b70b2500b5201b9260b690056bb055a00aab015478064b00725017457075200b69005d54055a00a9e90a9600d4a00eaa70ea400ed2006ea60ab500557b052d00a9501d4580d4900da401da470daa009b50056b3052d01a9390a930'
    '0b4900ba98075400b6a0155a5095b004ab00d27106930174280ea9006d400af460ab60095601c5640d2600e9590d9200da9005d9805b400ab50056d6094d00aa7a0b2500b5200baa90b690056a00aba70aab0054b00acb506a5007559075200ad5015658'
    '055a00a5b0055660d4a01ea2a0ea400eca006da806b5004b600a6d60a5500d4600ec550da200dac90b6a005ad004bb704ab00a5500d4b60b4500b93b075400b6a0156a9095b004ab006577068b0074501725506d401ad8a0ab50055600cae70c9600e4a0'
    '1e8a60da5005d3b05aa00ab50055d8052d00a9500d5570b4a00ba5005e55056a00aaea0a5b0052b00a9b806930074901b4a606d50036a00d5610a570052e90d2a00e9200ed270dca006d5012b5504b601a55a0a5500d2500e9580d9200da9015aa605ad0'
    '02ad00aab30a4d00b2b80b2500b5200bb270b6a0056b002db504ab0064e90e4a00ea500755806d200ad9005756055600a970069540d4a00eaa80da5005d201aca70aad0055600aad50a9500d4d90b4900ba5005b58056a00aad0151b6052b00a9500e931'
    '074901761906d50035a00a7670a570052b006a650e9200ecaa0da9006d5012d5802b600a5601d0d60d2500d93b0b9200da9015b19056d002ad01a4b70a4b00b2500ba55075200baaa0b690056a01aaa80a9b0064b0170a60ea50075200ed210ad50055d9'
    '055600a9600d5570d4a00ea5006e5605b200ab6a0aad0053600a9d80a9500d4900da970ba400daa00b6a20a6d0152b9052b00a9300b53707490076401b5450b5a0195aa0a570052b0069680e9200ec9006e9606d400ada00ab520a5600d2d80d2500d920'
    '0db270ba9005b400aea50aad00957a0a4b00b2500b958075200b69005797055a00aab0059b4054b016a290ea50075200b7270ad50055a00ab650a9601d49a0d4a00ea400ed480daa00ab50056d6052d00a9500d9540d4901da190ba400baa005ba8096d0'
    '052d00aab60a9300b4ba07490075400b6c90ada0095b004b670d27006930171250ec9006d5a05d400ad60154d7095600d2600ea560d9200daaa0ba9005b400aba80aad0054d00b2b70b2500b5200bd250b690056d9055a00aab005577054b006a5007656'
    '075201ae4b0ad50055a00a9e90a9600d4a00eaa70ea400ed2016aa405b5014d5a04ad00a9500d5570d4500da401d9460baa005b5c096b004ad00a9b8068b00b4500ba97075400b6a005da4055b004ae90ca70068b0074a80ea9006d400af460ab500557b'
    '095600c9601d8580d4a00da9015c9705b200ab5005ad4054d01a9390a9500b4a00baa80b650056a01a9a60aab0052b00d2b106950074a90eca006d500375704da00a5b0055650d2a00e9590e9200ec9006da805b5004b600a6d60a5500d27a0b2500b920'
    '0daa90b6a005ad012ab704ab00a5500b4b50b25007559075200b6a0156a8055a00cab006576064a01ea4b0ea5006d200ada90ab50055600aae60a9600d4a00eca50da5015d1a05aa00ab50055d8052d00a9500d5560b4900ba5b0b650056a01aaa90a5b0'
    '052b01a8b706930074901749506d501369a02d600a5b0152680d2600e9200ed260dc9006d5c05b5002b600a5d80a5500d2501d8570b9200ba9005e95056d002afa04ab00a4b00b2b807250075200bb270b690056a00d5a10a9b0064e90e4a00ea5017457'
    '06d200ad5015355055601a95a0a9500d4a00ea980da400dd200aea60ab50053600b2d30a9500d4b90b4900ba400db57036a0096d0055b5052b00a97a06930074900769806d400ada0195660a570052b0162640e9200eca90da9005d401ad5702b6009560'
    '0d4d50d2501d91a0b5200ba9005b98056c00aad0096b6064b00b2500f251075200b6a90ae90056a00aba70a9b0054b006ca50ea501751a06d200ad5015558055600a9600d5560d4a00ea5b0da400db2016b2909ad0052d01a8d70a9500d4901d8960ba40'
    '0baab0b6a0096d014ab8052b00a9300b53707490075400ed410ada0095e9095600d2b0069680e9200ec9006e9605d400ad6b0ab50095600cad80d2500d9200db270ba9005b400b6a30aad0154b9054b00aa500b558075200b69015555055a01aaab0a970'
    '054b006aa80ea50075200772706d50055a01a3640a9600d4d90d4a00ea400ed480daa005b5004ed604ad00a57a0a9500d4500da580b9400baa015aa7056d004ad00aab4069301b43907450075401b6480ada0055b004d650ca701692a0e8a00ea5016d19'
    '05d400ad6005756055600c9600d9540d5200daaa0ba5005b200aba80aad0054d00aab60a9500b53b075200b650056d9055a00aab005377052b006950172250ed1006e6a06d5002da01a5680a5600d2a00ea560ea200dcaa0daa005b5002bd804ad00a550'
    '0d2b70b2500d9200dd250baa005b6a056b004ad00a5b8064b00725007656075201b68b0ada0055a00aae90c9600e4a00eaa70ea5006d201ab240ab501555a055600a9600d5570d4a00da5005e5605aa00ab5c0aad0052d00a9b80a9500b4900ba970b650'
    '036a00ada50a5b0052f9052b006930174280ec9006d401b55602da00a5bc0a5600d2600e9590d9200dc9016c9705b5002b6009ad40a5500d27a0b2500b9201ba280b690056c01aab602ab00a4d00e4b10725007559075200b69005757055a00aab015165'
    '0d4a00ea6a0ea5006d201ad280ab50055600aad60a9500d4bb0d4a00da400dd490daa00ab50152d7052d00a9500d5360b4900ba5a076400b6a0196a80a5b0052b00aab6069301748b0ec9006d400b6d902d60095a00d3670d2600e9200ed260da9005d5a'
    '05b400ab60095d80a4d00d2500da560b9200ba9c0b690056c01aaa90aab0054b00b2b706a50075200bd250b690056bb055a00a9b0154680d4a00ea501745706d200ad5c0ab50055601a9590a9500d4a00ea970da400db2005ea609b500537b052d00a950'
    '1d4380b4900ba400bb470b6a0056d0055b2052b00697906930074900769806d400ada015565095601d2aa0d2600e9200eca90da9005d400af460ab50055600d4d30b2500d9590b5200ba9005b98056a00aad0056b6054b00aa7a06a50075200b6a90ae50'
    '056a00aba70a9b0054b0164a40ea50075490ed2006d501555804b600a9600d5560d4a00ea5a0da400daa005ba805ad004ad00a6b60a9500b4900f4910ba400bac90b6a0056d004bb704ab0069300b4a60f4900755b06d400ada0055e9055600ca7006967'
    '0e8a00ea9c0da9005d400ad6a0ab50055600aad70a9500d4a01d9260ba9005b3b056a00aad0154b8054b00aa501b457075200b69006d51056a00a6e90a570052b006aa80ea200ed1016ca606d5002dbb04b600a5600d2d90d4500da200dd270daa005b50'
    '056d104ad00a57a0a5300b4500ba58075200baa015aa6056b012adb04ab0064b0072a80ea50075200b7270ad90055a00ad650c9600e4d90d4a00ea5006d5805d200ad5005756055600a97b0a9500d4a00daa80ba5005b201aaa70aad0052d00aab50a950'
    '0b4b9074900765013658035a00a6b015176052b01692b0e9200ec9016d1906d5002da0195670a5600d2a00ea550d9200dcaa0ba9005b5002bd802ad00a5501d0b60b2500b93b075200b69015b19056a00aad0065b7064b00725017255075200b6aa0ad50'
    '055a01aa680a9600d4a01e8a60ea5006d3b05b200ab5015559052e00a9600d5570d4900da400de460daa009b6a0a6d0052d00a9b80a9500b4900ba97076400b6bb02da0095b0052f9052b006930075270ec9006d401ad450ad60195aa0a5600d2600e958'
    '0d9200da9005e9605b400ab600aad1095501b2390b2500b9200bb270b690056c00aea50aab0054f9054b006a5007558075200b69005757055a00aabc0a9600d4a01ea290ea400ed2016d280ab50055600aad50a9501d49a0d4900da400dd480baa005b50'
    '14ad6052d00a9500e9320b4901ba19075400b6a0057a7095b004ab006a7506930074aa0ec9006d400adc90ad60095a00cb670d2600e93b0d9200da9005d5a05b400ab50154d7054d00aa500da560b5200baaa0b690056a01aaa80aab0054b00aab706a50'
    '075200ed2106e90056d9055a00a9b0055670d4a00ea50076460dd2006d6a05b5004b600a5d80a9500d4a00ea970ba400daac0baa005b5014b3904ad00a9500b537074900ba401b9460b6a0156cb055b004ab0065680e9200f4901749706d400adac0ab60'
    '055600cae90ca600d5201ea280da9005d400aea60ab500557b054d00a9500d5580b5200ba9015a57056a00aad0069b2052b01a93906a50075101762806d50036a01a5a50a5b0152ab0d2a00ea200ed290dca006d5012d5702b600a5600d5540d2500da59'
    '0ba200da9005ba805ad002ad00a6b60a5500b27a07250075200baa90b6a0056b002ba70cab0064b0074a50ea500755906d200ad9015558055600aa70055560d4a00ea6a0da5005d201ad290ab50055600aad60a9500d4a00dc950ba401db1a056a00aad0'
    '053b7052b00a9500b536074900765b06d50036a0096e90a570052b0168670e9200ec9c0da9006d401ad9a02b600a5601d2580d2500d9200dd260ba9005b5b056d002ad01a5390a4b00b2501b857075200ba9007692056a00aaea0aab0064b0072a80ea50'
    '075200b7270ad90055bb055600a9600d4d90d4a00ea5006d480db200ab5005b54053601a95a0a9500d4900da980ba400baa015aa6096d0052d00d2b10a9300b4b907490076400b7470ada0095b0055650d2b0069690e9200ec9006d9805d400ada009756'
    '095600d27b0d2500d9200dca90ba9005b401aac70aad0055500b4b50b2501b51a075200b69015698056a00aad0055b6054b016a4b0ea50075200aea90ad50055a00ab670a9600d4a00eca50ea401ed0a0db2005b5004dd8052d00a9500d5560d4900da5b'
    '0ba400baa015b29096d004ad01a8b706930074900bc95076400b6ab0ada0095b014a680d2b006930075270ec9006d5b05d400ad60055d9095600d2600d9580d9200da9005e9605b400ab6a0aad0054d00aab80aa500b5200bb270b690056a00d5a10aab0'
    '054f9054b006a500755806d2006e9013555055a01a5aa0a9600d4a00eaa80ea400dd2016ca705b5004d600cad10a9500d4d90b4900ba400bb480baa005b5002eb504ad00a57a069300749007a98075400b6a0057a7055b004abc0ca70069201ec290ea90'
    '06d401ad480ad50055600ad650aa601d51a0d5200da9015d1905b200ab50056d6054d00aa500ea520b5200baaa0b690056a00aba70a6b0052b00aab606a500752a0ed2006d50036d902da00a5b0053670d2a00ea3b0da200dc9006d6a05b5002b600a5d8'
    '0a5500d2501d8560ba200baaa0b6a005ad012b3904ad00a5500b2b707450075200f5210b6a0056ea055a00aab0065670e4a00ea500765606d201ad8b0ab50055600a9d90a9500d4a00eaa70da5005d200daa10ab501555a052d00a9501d4580b4900ba40'
    '1ba56036a019acb0a5b0052b00a9b806930074900769706d5002ea00ad620a5b0052e90d2600e9201ec280dc9005d400af5602b600957b0a5500d2500d9590b9200ba9015a97056d002ad00aab2064d00b27a07250075201b6280ae90056a01a9a60aab0'
    '154ab0d4a00ea500755906d200ad9015557055600a9600d9540d4a00ea5a0da400dd2006da809b50053600aad60a9500d4ba074900ba400bb490b6a0096d004bb7052b0069501b135074900765a06d400aea019668095600d2b006a660e9201ec8b0da90'
    '05d400adc90ab50095600d2d70b2500d9200dd250ba9005b5a056c00aad0055b8054b00b2500b656075201b68b0ae90056a01aaa90a9b0054b006aa70ea500752c0dd2006d501559a055600a9601d4580d4a00da400de460db2005b5c09b5004b501a959'
    '0a9500b4900ba970ba400baa0076a2056d004afa04ab0069301b43807490076400b7470ada0055bc095600cab0069690e9200ec9006d9805d400ada005b54055601ca5a0b2500d9200daa90ba9005b401aaa60aad0055500d4b10aa500b559075200b690'
    '05757056a00aad0151b5054b006a6a0ea400ed2006ea906d5002da00a7660a5600d4bb0d4900da400dd490daa005b5002dd804ad00a5500d5560b4900ba5a076400baa015b29056d004ad00a6b6069300749c0ec90075400b6c90ada0055b002b670ca60'
    '0e5200ed260ea9006d5a05d400ad50055d9055600aa600d5570d5200da9c0ba9005b200ab6a0aad0054d00a9b80a9500b5201b91607690036bb035a00a6b015278052b006950174270ed1006e5c06d5002da00a5e90a5600d2a00e9580da200dd1005ea6'
    '05b5002b7b02ad00a5500d2d80b2500b9200bb270b69005750056b102ad00657a064b00725007558075200b69015595055a01aaab0a9600d4a00eaa80ea5006d201ad270ab50055600d5610a9600d4d90d4a00da400dd5805b200ab50056d6052d00a97a'
    '0a9500b4901ba19076400b6a009ba70a6b0052b00b2b306930074a90ec9006d401ae5802da0095b0055650d2600e93b0d9200dc9015d1905b400ab60194d70a5500d2500f2520b9200baaa0b690056c00aba80aab0054d01b0b606a500753b075200ae90'
    '056d9055a00aab0055670d4a00ea5c0ea5005d200adaa0ab50055600a9d80a9500d4a01e8960ba400dd2b0baa009b5015359052d00a9500b5370b4900ba400f6410b6a0056ea095b0052b0069b806930074900769706d400aeab0ad60095a00d2e90d260'
    '0e9200ed270da9005d400db410ab601555a055500b2500d9580b5200ba9015a96056c00aadc0aab0054b01aa3906a50075200b7270ae90056a00b5a30a9b0154aa0d4a00ea5006d480dd2006d5004f5604d600a97b0a9500d4a01da190ba400db2005da8'
    '05b5004b600aad40a9500b4ba0749007a400bac90b6a0056d0149b604ab01692b0e9200f4901761906d400ada005767055600cab006a650d9200ecaa0da9005d400adc90ab50055601a8d60aa500d53b0b5200ba9005b5a056a00aad0055b8054b00aa50'
    '0b65607520076aa06e90056a01a6a80a5b0054b006aa70ea400ed2b0dd2006d5002dd904b600a5600d5570d4a00da400de460baa005b6a05b5004b500a5b80a5500b4900ba57076400baac0b6a0056d002afa04ab006530074a70ec50075401b5450ada0'
    '055bb055600aaa00d5580d4a00ea5016c9705d400ad5c0ab50055601aa590a9500d4a01da280ba9005b200aea50aad0052fa052b00a9500b559075100765003757036a00a6dc0a5b0052b0169290ea200ed1006ea805d5002da009b640a5600d2bb0d250'
    '0da200dca90ba9005b5012ad702ad00a5500e5520b2500b959075200b69005ba8056a00aad0056b6064b00726a0ea50075200aea90ad90055a00ab670a9600d4bb0d4a00ea5005d5905d200ad5015558055600a9600d5560d4a00da5a0ba400bb2019b29'
    '09ad0052d00aab6069500b4900f491076401b69a02da0096b0053670d2b006930075260ec9006d5b05d400ada0095e9095600d2a01e8570d9200dc9c0ba9005b401ab5a02ad0095500b2b80b2500b9201b9260b6900575b056a00aad0154b9054b006a50'
    '1745706d200ae9c0ad50055a01aaaa0a9600d4a00eaa80ea400dd2006f260ab5004d7b053500a9600d4d90b4900ba400dd480baa005b50056d204ad00a97a069300749007a98076400b6a0155a6095b014aab0d2b006930074a90ec9006d400af470ada0'
    '055a00d5630d2600d9590d9200da9005d9805b400ab50056d6055500aa7a0b2500b5200baa90b690056c00aba80aab0054d00b4b306a501751a06d2006e9013658055a00a9b0055660d4a01ea4b0da400dd2006da905b5004d601a4d70a9500d4a00f492'
    '0ba401bb0a0baa005b5002bd804ad00a9500b5360749007a5b075400b6a0056ea055b004ab0164a70e9200ec9c0ec9006d400aeab0ad60055a01aa680aa600d5200eb270da9005d5b05b400ab5015559054d00aa500d5580b5200ba9007692056a00aaea'
    '0aab0054b00aab806a50075200772706e50036bb02da00a5b0052e90d4a00ea400ed280dd2005d5005b5102b601a55a0a5500d4900da980ba200baa015aa605b5002b500cad10a5500b2b907450076201ba480b6a0056d0035a30aab01652a0e4a00ea50'
    '0759806d400ada005756055600aabc0a9600d4a00eaa90da9005d401ad280ab50055600aad50a9501d49a075100ba800bb59036a009ad0151b6052b01a95c06950075100769a06d5002ea0097a70a5b0052b006aa50e9200ecaa0dc9005d5002dd902b60'
    '095600d3570d2500d93b0b9200ba9005b5a056d002b50095b8065500b2500ba56075200b6aa0ae90056a01aaa90aab0054b006aa70ea500753b05d200ad901559a055600a9600d5570d4a00da5005e460dd201ad4b0ab50053600a9d80a9500b4a00ba97'
    '0ba400bb2c0b6a0096d0052fa052b0069501b43807490076401b5450ada0196ab095a00d2b0069690e9200ec9016c9705d400adac0ab50095600d2d90b2500d9201dc280ba9005b400aec50aad00557a054b00b2500b559075200b69015697056a00aadc'
    '0a9b0054b006a6a0ea5006d2016e2806d90055a00ad650a9600d4bb0d4a00da400dd490db2005b5014d5704b500a9600e9520b4900ba5a0ba400baa005ba8056d004ad00aab606930074aa0f490076400b6c90ada0055b004b670d2b00693c0d9200ec90'
    '06d5a05d400ada015558055600aa600da560d9201da8b0ba9005b401ab290aad0055500aab70aa500b5200f5210b6900575a056a00aad0154b8054b006a50076460ed2016e8b06d5004da00a5e90a9600d4a00eaa70da400dd2c0bb2005b5012d5a04ad0'
    '0a5501d4580b4900ba401ba460b6a005b5c056d004ad01a539069300749007698075400b6ac0ada0055b012aaa0caa00e9201ec280ea9006d400af470ad60055bb055600aa600d5590d5200ba9005d9805b400ab5006ad2054d00aa7a0aa500b5200baa9'
    '07690036a01aaa60a6b0152bc054b006a50075490ed2006e900375702da00a5b0055640d2a00ea5a0da200dd2005da805b5002b600a6d60a5500d2bb0b4500ba200bac90b6a00575002bb802ad0065500b4b5074501751a075400b6a0156a9055a00aab0'
    '056660d4a01ea4b0ea5005d401ad8a0ab50055a00ab670a9600d4a00eca50ba5005d3b03b200ab50055d8052d00a9500d557074900ba5b07650036a009aea0a6b0052b0069b8069300749007c9406d400aebb02da0095b0052e90d2a00e9200ed270dc90'
    '05d5b05b5002b60195590a5500b2500d9580b9200ba9007692057400ab6a0aad0055500b2b806a50075200b7270ae90156cc055a00aab0054e90d4a00ea5006d5805d200ad9005b54055600a97b0a9500d4a00da980ba400dd2015ca709b5004b600d2d1'
    '0a9500b4d9074900ba400bb480b6a0096d0055b3052b00696a0e930074901761906d400aea005767095a00cabc0d2600d9200ecaa0da9005d401ad480ab60055600ad550b2500d93b0b5200ba9015b19056c00aad0154b7054b00aa500ea51075200b6aa'
    '0ae90056a01aaa80aab0054b006ca50ea5006d2b0dd2006d9004dd904d600a9600d5570d4a00da5b0ba400bb2005b6a05b5004b600a5d80a9500b4901b89607a400baab0b6a0056d014ab904ab006930075270ec901764c06d400ada0155aa055600cab0'
    '069680d9200ec9006e9605d400adab0ab50055601aa590aa500d5200db270ba9005b400d6a10aad00557a054b00aa500b558075200769013696036a00aadc0a5b0054b016a290ea400ed2006f2705d5002da00cb610a5601d49a0d4900da400dd480bb20'
    '05b5002f5602b501a55b0a5500b4901ba19076400baa005ba8056d002ad006ab306530074aa0ec90075400aec90ada0055a00ad650aaa00d53b0d5200ea9005d5a05d400ada015557055600aa600ea520d5200baaa0ba9005b4009ba80aad0054d00aab6'
    '0aa500b53b0751007690036d9036a0096d0053b7052b00695c0ea200ed1006e6a05d5002da0095e90a5600d2a00ea960da201dd0b0baa005b5012b5902ad00a5500b3570b2500b9200f5210b6900576a056b002ad0055b8064b0072500765606d200ae9c'
    '0ad90055a00aae90aa600d4a00eaa70da5005d200db210ab50055bb055600a9601d4580b4a00ba401dc470bb2009b5c096d0052d01a93906950074900ba98076400b6a00ada2096b0152aa0d2b006930074a90ec9006d400af470ada0095bc095600d2a0'
    '0d9590d9200dc9005d9805b400ab600aad2095500b27a0b2500b9200baa90b690057401aaa60aad01555c054b006a500755906d200ae9015698055a00aab0059640d4a00ea6a0da400dd2006da905b5004da00ab560a9500d4bb0b4900ba401bd0a0baa0'
    '05b5004bd804ad00a9500b5360749007a5a076400b6a0156a9095b004ab006aa60e93006c9c0ec9006d401ae8a0ada0055a01ca680d2600d9200ed260da9005d5b05b400ab6015559055500aa501d4570b5200ba9c0b690056c00ab6a0aab0054d00aab8'
    '06a50075201b52506e90036bb055a00a9b0054e90d4a00ea5016c470dd2005d9c05b5004d601a55a0a9500d4a00da980ba400bb20076a205b5002b7b04ad00a9500b4b907490076400bb480b6a0056dc055b004ab00656a0e9200ec900769805d400aea0'
    '05d64055a01aaab0aa600d5200eaa90ba9005d401ad470ab50055600d4d10aa501d51a075200ba9005b98036a00aad0056b6054b01aa5b06a5007520076a906e90036a0097a70a5b0052bc0d4a00ea401ed0a0dd2005d5002dd902b600a5600d5550d4a0'
    '0da5b0ba400bb2015b290575002b50194d7065500b4900f491076401b68a0aea0056d012aa80aab005530169260ea9006d5b05d400ada0055d9055600aaa01d4670d4a00da9c0ba9005d400adaa0ab50055600aad80a9500b4a00bb270ba9003b5b036a0'
    '09ad015339052b0069500b55807510076800ed5102ea0096ea0a5b0052b0069a80ea200ed1006e9705d5002dbb02b60095600d2d90b2500d9200dd270ba9005b50056d102b500957a065500b2500b958075200b69015696056c00aadc0aab0054b016a29'
    '0ea5006d201ae280ad90055a00d5610a9601d49a0d4a00da5005d490dd2009d5004f56053600a97b0a9500b4a00ba5a0ba400bb2005ba8096d004ad00b2b306950074ba07490076400b6c90aea0096b0149a60d2b00693c0d9200ec9006d5a05d400ada0'
    '15568095600d2a00f2520d9200daaa0ba9005b401ab490aad0055500aab70aa500b53b075200b6900575a056a00aad0055b7054b006a5007a5406d2006eaa06d9004da00aae90a9600d4a00eaa70da400dd2b0bb2005b5014d9a04b500a9600d5570b490'
    '0ba400f6410b72015b4b056d004ad00a9b8069500749007697076400b6ac0ada0055b004ae90cab00693016c280ec9006d400dd410ada0055bb055600aa600d9590d9200ba9015c9705b400ab5c0aad0055500aa7a0aa500b5201ba2807690037400b6a3'
    '0aad0154db054b006a50075490ed2006e900375702da00a5bc0a5600d4a00ea6a0da400dd2005da905b5002b600ab540a5500d4bb0b4900ba400bb490b6a005b5012ad704ad00a5500e931074900765a075400aea0156a8055a00aab005aa40d5200ecaa'
    '0da9005d400aec90ada0055a00ab670aa601d52c0b5200ba9005d5a05b400ab50055d8054d00aa500d656075201ba8b07690036a019aa90a6b0052b00aab706a500752c0ed2006e9012e9a02da00a5b0152680d2a00ea400ee260dd2015d4b05b5002b60'
    '195590a5500b2900da570ba200baac0b6a00575002b7a02ad0065501b23806a50076201b5460aea0056dc055a00aab0055690d4a00ea5006d5805d200ad9c0ab50055a01aaaa0a9600d4a00daa80ba800dd200bb2209b500557b052d00a9500b4d907510'
    '0ba800bb480b6a0096d0056b2052b00696a0e950074900769906d400aea009da4095b0052bc0d2a00d9200eca90dc9005d401ad5802b60095600d5520b2501d91a0b9200ba9015b19057400ab50056d6055501aa5b06a50075200b6a90ae90056c00aba7'
    '0aab0054b0154a10ea5016d0a0dd2006d9004dd904d600a9a00d5560d4a00da5b0ba400bb2005b6a09b5004b601a8d70a9500b4a00f49107a400bb2b0b6a0056d014ab804ab0069500753606c900765b06d400aea0056ea095a00cab0069680d9200ec9c'
    '0ba9005d400adab0ab50055600aad90aa500d9200db270ba9005b5b056c00aad00557a054b00aa500b558075200b69006e91056a01aacb0a9b0054b006aa80ea5006d2006f2705d9012dac04d600a5600d4d90d4a00da400dd480bb2005b5005b5104b50'
    '0a57b0a9500b4901ba19076400b6a015aa7056d002ad00cab106530074aa0ec9006e401ae480ada0055b0055610aaa01d52a0d9200dc9015d1905d400ada005756055601aa6c0aa500d5200baaa0ba9005b4009ba80aad0055500b4b30aa500b53b07520'
    '0769013719036a00a6d0151b6054b006a5c0ea400ed2006eaa05d5002da0195680a5600d2a00ec950da400dd2b0bb2005b5002bd902b500a5500b3570b4900ba5b076400b6a00576a056d002ad0055b8065300729007c9406d400aeab0ada0055a00aae9'
    '0aaa00d5200eb270da9015d4c05d400ad901559a055600aa600d5580b5200ba9007a9203b4019b4b09ad0052d01a93906950075200bb1707690036a00aea1096b0052fa052b006950075280ed1006e800dd5102da0095bc095600d2a01d9190da200dd10'
    '15c9705b5002b600aad1095501b29a0b2500b9200baa90b690057400b6a30aad01555b054b006a500755906d200ae9005797055a00aabc0aa600d4a00ea6a0da5005d2006da909b50055a00ab650a9600d4bb0b4a00ba400bd490bb2005b5014ad7052d0'
    '0a9500e951074900ba5a076400b6a0156a8096b004ab006ab60693016c8b0ec9005d400aec90ada0095a00cb670d2a01d92c0d9200bc9005d5a05b400ab60055d8055500aa500d6560b5201ba8b0b690057400ab6a0aad0055500aab706a50075200ed21'
    '06e90036db055a00aab0154680d4a00ea5006e460dd2005d9c05b5004d600a5d90a9500d4a00da980ba400bb2c0b6a005b5002b7b04ad00a9500b4b907490076401b6470aea0056dc055b004ab00696a0e9200ec9006e9805d400aea012da1055a01aaaa'
    '0aa600d9200dca90ba9005d400af460ab501556c055500aa500b559075200ba9005b98056c00ab5006ab2054d00aa7a06a5007520076a906e9002ea00ada40a5b0054bc0d4a00ea400ed490dd2005d9012d5802d600a5600e9520d4a00da5a0ba400bb20'
    '15b290575002b600a6d60a5501b49b07490076401b68a0aea0056d002bb702ab005530079230ec9006d5b05d400ada0055e9055a00aab0056660d5200da9c0ba9005d401ad8a0ab50055600aad80aa500b5200f5210ba9003b5b036a009ad015339054b0'
    '0aa501b457075200769c06e9002ea0096ea0a5b0052b006aa80ea400ed2015d2105d5002dbb02b60095600d2d90b4900da401dc470baa005b5c0575002b501955a065500b2900ba58076400b6a006ea2056d012acb0aab00553006aa90ea5006d400af47'
    '0ada0155ac055600aaa01d51a0d5200da9005d9805d4009d9005b52055600a97b0a9500b5200ba990ba800bb2019aa7096d0052d00d2b1069500753a07510076801b65802ea0096d0055a30d2b01694b0d9200ed1016e1905d5002da009766'
)
FIRST = (
    1721466, 1725099, 1728731, 1732422, 1736084, 1739716, 1743378, 1747040, 1750672, 1754333, 1757995, 1761627, 1765289, 1768951, 1772583, 1776245,
    1779907, 1783569, 1787201, 1790863, 1794525, 1798157, 1801819, 1805481, 1809112, 1812774, 1816436, 1820068, 1823730, 1827392, 1831024, 1834686,
    1838348, 1841980, 1845642, 1849304, 1852965, 1856598, 1860259, 1863921, 1867553, 1871215, 1874877, 1878509, 1882171, 1885833, 1889465, 1893127,
    1896789, 1900421, 1904083, 1907745, 1911377, 1915039, 1918700, 1922333, 1925995, 1929656, 1933289, 1936951, 1940612, 1944274, 1947906, 1951568,
    1955230, 1958862, 1962524, 1966186, 1969818, 1973480, 1977142, 1980774, 1984435, 1988097, 1991730, 1995392, 1999054, 2002686, 2006347, 2010009,
    2013641, 2017303, 2020965, 2024627, 2028260, 2031921, 2035583, 2039215, 2042877, 2046539, 2050171, 2053833, 2057495, 2061127, 2064788, 2068450,
    2072083, 2075745, 2079407, 2083039, 2086701, 2090362, 2094024, 2097656, 2101318, 2104980, 2108612, 2112274, 2115936, 2119568, 2123229, 2126891,
    2130524, 2134186, 2137848, 2141480, 2145141, 2148803, 2152435, 2156097, 2159759, 2163392, 2167053, 2170715, 2174377, 2178009, 2181670, 2185332,
    2188965, 2192627, 2196289, 2199920, 2203582, 2207244, 2210876, 2214538, 2218200, 2221832, 2225494, 2229156, 2232788, 2236449, 2240111, 2243773,
    2247406, 2251068, 2254729, 2258361, 2262023, 2265685, 2269317, 2272979, 2276641, 2280273, 2283935, 2287596, 2291229, 2294891, 2298553, 2302185,
    2305847, 2309509, 2313140, 2316802, 2320464, 2324096, 2327758, 2331420, 2335082, 2338714, 2342376, 2346037, 2349670, 2353332, 2356994, 2360626,
    2364288, 2367950, 2371581, 2375243, 2378905, 2382538, 2386200, 2389862, 2393494, 2397155, 2400817, 2404478, 2408111, 2411773, 2415435, 2419067,
    2422729, 2426390, 2430022, 2433684, 2437346, 2440979, 2444641, 2448303, 2451934, 2455596, 2459258, 2462890, 2466552, 2470214, 2473846, 2477508,
    2481170, 2484831, 2488463, 2492125, 2495787, 2499420, 2503082, 2506743, 2510375, 2514037, 2517699, 2521331, 2524993, 2528655, 2532287, 2535949,
    2539611, 2543243, 2546904, 2550567, 2554199, 2557861, 2561523, 2565184, 2568816, 2572478, 2576140, 2579772, 2583434, 2587096, 2590728, 2594390,
    2598051, 2601684, 2605346, 2609008, 2612640, 2616302, 2619964, 2623595, 2627257, 2630919, 2634581, 2638214, 2641876, 2645537, 2649169, 2652831,
    2656492, 2660125, 2663787, 2667449, 2671081, 2674743, 2678404, 2682036, 2685698, 2689360, 2692993, 2696655, 2700317, 2703948, 2707610, 2711272,
    2714933, 2718566, 2722228, 2725890, 2729522, 2733184, 2736845, 2740477, 2744139, 2747801, 2751434, 2755096, 2758757, 2762389, 2766051, 2769713,
    2773345, 2777007, 2780669, 2784331, 2787963, 2791625, 2795286, 2798918, 2802581, 2806243, 2809875, 2813537, 2817198, 2820830, 2824492, 2828154,
    2831786, 2835448, 2839110, 2842742, 2846404, 2850065, 2853698, 2857360, 2861022, 2864684, 2868316, 2871978, 2875639, 2879271, 2882933, 2886595,
    2890228, 2893890, 2897551, 2901183, 2904845, 2908506, 2912139, 2915801, 2919463, 2923095, 2926757, 2930418, 2934080, 2937712, 2941374, 2945036,
    2948669, 2952331, 2955992, 2959624, 2963286, 2966947, 2970580, 2974242, 2977904, 2981536, 2985198, 2988859, 2992491, 2996153, 2999815, 3003448,
    3007110, 3010771, 3014433, 3018065, 3021727, 3025389, 3029021, 3032683, 3036345, 3039977, 3043638, 3047300, 3050932, 3054594, 3058256, 3061889,
    3065551, 3069212, 3072844, 3076506, 3080168, 3083830, 3087462, 3091124, 3094786, 3098418, 3102079, 3105741, 3109374, 3113036, 3116698, 3120330,
    3123992, 3127653, 3131285, 3134947, 3138609, 3142242, 3145903, 3149565, 3153197, 3156859, 3160520, 3164182, 3167815, 3171477, 3175139, 3178771,
    3182432, 3186094, 3189726, 3193388, 3197050, 3200683, 3204344, 3208006, 3211638, 3215300, 3218961, 3222594, 3226256, 3229918, 3233550, 3237212,
    3240873, 3244535, 3248167, 3251829, 3255491, 3259124, 3262785, 3266447, 3270079, 3273741, 3277402, 3281035, 3284697, 3288359, 3291991, 3295652,
    3299314, 3302946, 3306608, 3310270, 3313932, 3317565, 3321226, 3324888, 3328520, 3332182, 3335844, 3339476, 3343138, 3346800, 3350432, 3354093,
    3357755, 3361387, 3365050, 3368712, 3372344, 3376006, 3379667, 3383329, 3386961, 3390623, 3394285, 3397917, 3401579, 3405241, 3408873, 3412534,
    3416196, 3419829, 3423491, 3427153, 3430785, 3434446, 3438108, 3441740, 3445402, 3449064, 3452697, 3456358, 3460020, 3463682, 3467313, 3470975,
    3474637, 3478270, 3481932, 3485594, 3489226, 3492887, 3496549, 3500181, 3503843, 3507505, 3511138, 3514799, 3518461, 3522093, 3525754, 3529416,
    3533049, 3536711, 3540373, 3544035, 3547666, 3551328, 3554990, 3558622, 3562284, 3565946, 3569579, 3573240, 3576902, 3580534, 3584196, 3587858,
    3591490, 3595152, 3598814, 3602446, 3606107, 3609769, 3613431, 3617063, 3620725, 3624387, 3628019, 3631681, 3635343, 3638975, 3642637, 3646299,
    3649931, 3653593, 3657255, 3660887, 3664548, 3668210, 3671843, 3675505, 3679167, 3682799, 3686460, 3690122, 3693783, 3697416, 3701078, 3704740,
    3708372, 3712034, 3715696, 3719327, 3722989, 3726651, 3730284, 3733946, 3737608, 3741240, 3744901, 3748563, 3752195, 3755857, 3759519, 3763152,
    3766813, 3770475, 3774136, 3777768, 3781430, 3785092, 3788725, 3792387, 3796049, 3799680, 3803342, 3807004, 3810636, 3814298, 3817960, 3821593,
    3825254, 3828916, 3832548, 3836209, 3839871, 3843533, 3847166, 3850828, 3854489, 3858121, 3861783, 3865445, 3869077, 3872739, 3876401, 3880033,
    3883695, 3887356, 3890989, 3894651, 3898313, 3901945, 3905607, 3909269, 3912900, 3916562, 3920224, 3923886, 3927518, 3931180, 3934842, 3938474,
    3942136, 3945797, 3949430, 3953092, 3956754, 3960386, 3964048, 3967710, 3971341, 3975003, 3978665, 3982298, 3985960, 3989622, 3993254, 3996915,
    4000577, 4004238, 4007871, 4011533, 4015195, 4018827, 4022489, 4026150, 4029782, 4033444, 4037106, 4040739, 4044401, 4048062, 4051694, 4055356,
    4059018, 4062650, 4066312, 4069974, 4073636, 4077268, 4080930, 4084591, 4088223, 4091885, 4095547, 4099180, 4102842, 4106503, 4110135, 4113797,
    4117459, 4121091, 4124753, 4128415, 4132047, 4135709, 4139370, 4143032, 4146664, 4150326, 4153988, 4157621, 4161283, 4164944, 4168576, 4172238,
    4175900, 4179532, 4183194, 4186856, 4190488, 4194150, 4197811, 4201444, 4205106, 4208768, 4212400, 4216062, 4219723, 4223385, 4227017, 4230679,
    4234341, 4237973, 4241635, 4245297, 4248929, 4252591, 4256252, 4259885, 4263547, 4267209, 4270841, 4274503, 4278164, 4281796, 4285458, 4289120,
    4292753, 4296415, 4300076, 4303738, 4307370, 4311031, 4314693, 4318326, 4321988, 4325650, 4329282, 4332944, 4336605, 4340237, 4343899, 4347561,
    4351194, 4354856, 4358517, 4362149, 4365811, 4369472, 4373134, 4376767, 4380429, 4384091, 4387723, 4391384, 4395046, 4398678, 4402340, 4406002,
    4409635, 4413297, 4416958, 4420590, 4424252, 4427913, 4431546, 4435208, 4438870, 4442502, 4446164, 4449825, 4453487, 4457119, 4460781, 4464443,
    4468076, 4471737, 4475399, 4479031, 4482693, 4486355, 4489987, 4493649, 4497311, 4500943, 4504604, 4508266, 4511898, 4515561, 4519223, 4522855,
    4526517, 4530178, 4533840, 4537472, 4541134, 4544796, 4548428, 4552090, 4555752, 4559384, 4563045, 4566707, 4570340, 4574002, 4577664, 4581296,
    4584957, 4588619, 4592251, 4595913, 4599575, 4603208, 4606869, 4610531, 4614193, 4617825, 4621486, 4625148, 4628781, 4632443, 4636105, 4639737,
    4643398, 4647060, 4650692, 4654354, 4658016, 4661649, 4665310, 4668972, 4672604, 4676265, 4679927, 4683589, 4687222, 4690884, 4694546, 4698178,
    4701839, 4705501, 4709133, 4712795, 4716457, 4720090, 4723751, 4727413, 4731045, 4734706, 4738368, 4742001, 4745663, 4749325, 4752957, 4756618,
    4760280, 4763942, 4767574, 4771236, 4774898, 4778531, 4782192, 4785854, 4789486, 4793148, 4796810, 4800442, 4804104, 4807766, 4811398, 4815059,
    4818721, 4822353, 4826015, 4829677, 4833339, 4836971, 4840633, 4844294, 4847927, 4851589, 4855251, 4858883, 4862545, 4866207, 4869838, 4873500,
    4877162, 4880795, 4884457, 4888119, 4891751, 4895412, 4899074, 4902706, 4906368, 4910030, 4913692, 4917324, 4920986, 4924647, 4928279, 4931941,
    4935603, 4939236, 4942898, 4946560, 4950192, 4953853, 4957515, 4961147, 4964809, 4968471, 4972103, 4975765, 4979427, 4983088, 4986720, 4990382,
    4994044, 4997677, 5001339, 5005000, 5008632, 5012294, 5015956, 5019588, 5023250, 5026912, 5030544, 5034206, 5037868, 5041500, 5045161, 5048823,
    5052456, 5056118, 5059780, 5063441, 5067073, 5070735, 5074397, 5078029, 5081691, 5085353, 5088985, 5092647, 5096308, 5099941, 5103602, 5107264,
    5110897, 5114559, 5118221, 5121852, 5125514, 5129176, 5132808, 5136470, 5140132, 5143794, 5147426, 5151088, 5154749, 5158382, 5162044, 5165706,
    5169338, 5173000, 5176661, 5180293, 5183955, 5187617, 5191249, 5194911, 5198573, 5202205, 5205867, 5209529, 5213190, 5216823, 5220485, 5224147,
    5227779, 5231441, 5235102, 5238734, 5242396, 5246058, 5249691, 5253353, 5257014, 5260646, 5264308, 5267969, 5271602, 5275264, 5278926, 5282558,
    5286220, 5289882, 5293543, 5297175, 5300837, 5304499, 5308132, 5311794, 5315455, 5319087, 5322749, 5326410, 5330043, 5333705, 5337367, 5340999,
    5344661, 5348322, 5351954, 5355616, 5359278, 5362911, 5366573, 5370234,
)
PUBLISHED = (
    0x04bd8, 0x04ae0, 0x0a570, 0x054d5, 0x0d260, 0x0d950, 0x16554, 0x056a0, 0x09ad0, 0x055d2,
    0x04ae0, 0x0a5b6, 0x0a4d0, 0x0d250, 0x1d255, 0x0b540, 0x0d6a0, 0x0ada2, 0x095b0, 0x14977,
    0x04970, 0x0a4b0, 0x0b4b5, 0x06a50, 0x06d40, 0x1ab54, 0x02b60, 0x09570, 0x052f2, 0x04970,
    0x06566, 0x0d4a0, 0x0ea50, 0x16a95, 0x05ad0, 0x02b60, 0x186e3, 0x092e0, 0x1c8d7, 0x0c950,
    0x0d4a0, 0x1d8a6, 0x0b550, 0x056a0, 0x1a5b4, 0x025d0, 0x092d0, 0x0d2b2, 0x0a950, 0x0b557,
    0x06ca0, 0x0b550, 0x15355, 0x04da0, 0x0a5b0, 0x14573, 0x052b0, 0x0a9a8, 0x0e950, 0x06aa0,
    0x0aea6, 0x0ab50, 0x04b60, 0x0aae4, 0x0a570, 0x05260, 0x0f263, 0x0d950, 0x05b57, 0x056a0,
    0x096d0, 0x04dd5, 0x04ad0, 0x0a4d0, 0x0d4d4, 0x0d250, 0x0d558, 0x0b540, 0x0b6a0, 0x195a6,
    0x095b0, 0x049b0, 0x0a974, 0x0a4b0, 0x0b27a, 0x06a50, 0x06d40, 0x0af46, 0x0ab60, 0x09570,
    0x04af5, 0x04970, 0x064b0, 0x074a3, 0x0ea50, 0x06b58, 0x05ac0, 0x0ab60, 0x096d5, 0x092e0,
    0x0c960, 0x0d954, 0x0d4a0, 0x0da50, 0x07552, 0x056a0, 0x0abb7, 0x025d0, 0x092d0, 0x0cab5,
    0x0a950, 0x0b4a0, 0x0baa4, 0x0ad50, 0x055d9, 0x04ba0, 0x0a5b0, 0x15176, 0x052b0, 0x0a930,
    0x07954, 0x06aa0, 0x0ad50, 0x05b52, 0x04b60, 0x0a6e6, 0x0a4e0, 0x0d260, 0x0ea65, 0x0d530,
    0x05aa0, 0x076a3, 0x096d0, 0x04afb, 0x04ad0, 0x0a4d0, 0x1d0b6, 0x0d250, 0x0d520, 0x0dd45,
    0x0b5a0, 0x056d0, 0x055b2, 0x049b0, 0x0a577, 0x0a4b0, 0x0aa50, 0x1b255, 0x06d20, 0x0ada0,
)
