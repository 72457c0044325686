// Generated: numbers m*10^e of at most 9 (17) digits that lie closest to the middle of two neighbouring
// floats (doubles), above and below it, for every decimal and binary exponent.
#pragma once
struct HardNum { unsigned long long m; int e; };
static const HardNum hard_f[] = {
{700649233ull, -54}, {700649232ull, -54}, {630584309ull, -53}, {350324616ull, -53}, {805746617ull, -52}, {618673272ull, -51},
{657909629ull, -51}, {696235142ull, -50}, {193449253ull, -50}, {185693066ull, -49}, {351265588ull, -48}, {981070775ull, -48},
{123948983ull, -47}, {764275259ull, -47}, {120838738ull, -46}, {241677476ull, -46}, {927467073ull, -46}, {483354952ull, -46},
{964790013ull, -46}, {966709904ull, -46}, {122704885ull, -45}, {159459520ull, -45}, {203678743ull, -45}, {360650067ull, -45},
{814714972ull, -45}, {920002485ull, -45}, {139894935ull, -44}, {127567616ull, -44}, {267462551ull, -44}, {184000497ull, -44},
{534925102ull, -44}, {368000994ull, -44}, {831791361ull, -44}, {974060831ull, -44}, {111915948ull, -43}, {101488257ull, -43},
{128042523ull, -43}, {437236101ull, -43}, {874472202ull, -43}, {522597783ull, -43}, {993057111ull, -43}, {129368210ull, -42},
{150045787ull, -42}, {351874419ull, -42}, {206953575ull, -42}, {941807681ull, -42}, {827814300ull, -42}, {103494568ull, -41},
{134493153ull, -41}, {300127135ull, -41}, {165562860ull, -41}, {465689995ull, -41}, {693392269ull, -41}, {931379990ull, -41},
{120050854ull, -40}, {117936867ull, -40}, {213188853ull, -40}, {186275998ull, -40}, {399464851ull, -40}, {372551996ull, -40},
{798929702ull, -40}, {745103992ull, -40}, {988864698ull, -40}, {102268849ull, -39}, {772016847ull, -39}, {728956279ull, -39},
{793547131ull, -39}, {107651420ull, -38}, {119954915ull, -38}, {227606335ull, -38}, {239909830ull, -38}, {467516165ull, -38},
{479819660ull, -38}, {750486563ull, -38}, {100885330ull, -37}, {187006466ull, -37}, {191927864ull, -37}, {374012932ull, -37},
{383855728ull, -37}, {748025864ull, -37}, {942414427ull, -37}, {100882001ull, -36}, {100393856ull, -36}, {184545767ull, -36},
{118601697ull, -36}, {260332633ull, -36}, {345962295ull, -36}, {411906365ull, -36}, {823812730ull, -36}, {135136529ull, -35},
{138384918ull, -35}, {164762546ull, -35}, {276769836ull, -35}, {329525092ull, -35}, {550291283ull, -35}, {659050184ull, -35},
{879816375ull, -35}, {108758901ull, -34}, {112007290ull, -34}, {217517802ull, -34}, {175963275ull, -34}, {483086909ull, -34},
{351926550ull, -34}, {966173818ull, -34}, {703853100ull, -34}, {102059764ull, -33}, {102599388ull, -33}, {131160359ull, -33},
{140770620ull, -33}, {262320718ull, -33}, {281541240ull, -33}, {815792937ull, -33}, {563082480ull, -33}, {835013459ull, -33},
{911895547ull, -33}, {140093961ull, -32}, {112616496ull, -32}, {252710457ull, -32}, {225232992ull, -32}, {609780467ull, -32},
{450465984ull, -32}, {900931968ull, -32}, {131837018ull, -31}, {170305469ull, -31}, {148323497ull, -31}, {477943449ull, -31},
{296646994ull, -31}, {774590443ull, -31}, {593293988ull, -31}, {102205207ull, -30}, {105381912ull, -30}, {209851093ull, -30},
{419702186ull, -30}, {455961477ull, -30}, {839404372ull, -30}, {911922954ull, -30}, {860254357ull, -30}, {149207161ull, -29},
{157547155ull, -29}, {298414322ull, -29}, {230065737ull, -29}, {528480059ull, -29}, {460131474ull, -29}, {681857217ull, -29},
{920262948ull, -29}, {126037724ull, -28}, {252075448ull, -28}, {375102901ull, -28}, {320424033ull, -28}, {988611533ull, -28},
{640848066ull, -28}, {107827901ull, -27}, {104768231ull, -27}, {215655802ull, -27}, {132107665ull, -27}, {347763467ull, -27},
{399382665ull, -27}, {695526934ull, -27}, {894552147ull, -27}, {933932665ull, -27}, {135167335ull, -26}, {159753066ull, -26},
{294920401ull, -26}, {186786533ull, -26}, {589840802ull, -26}, {373573066ull, -26}, {830694269ull, -26}, {747146132ull, -26},
{108133868ull, -25}, {101258533ull, -25}, {146470269ull, -25}, {272314533ull, -25}, {544629066ull, -25}, {949663198ull, -25},
{100048941ull, -24}, {109343460ull, -24}, {209392401ull, -24}, {134094666ull, -24}, {343487067ull, -24}, {268189332ull, -24},
{686974134ull, -24}, {611676399ull, -24}, {934868411ull, -24}, {997459593ull, -24}, {173773039ull, -23}, {347546078ull, -23},
{890866267ull, -23}, {830628079ull, -23}, {105416829ull, -22}, {114923156ull, -22}, {190220891ull, -22}, {540543579ull, -22},
{420067203ull, -22}, {760883564ull, -22}, {800508985ull, -22}, {108748761ull, -21}, {107148648ull, -21}, {192442179ull, -21},
{160101797ull, -21}, {424509779ull, -21}, {320203594ull, -21}, {600781767ull, -21}, {888644979ull, -21}, {963811008ull, -21},
{942840478ull, -21}, {104306185ull, -20}, {143931606ull, -20}, {248237791ull, -20}, {496475582ull, -20}, {702990899ull, -20},
{992951164ull, -20}, {108897843ull, -19}, {123070369ull, -19}, {257421107ull, -19}, {206515317ull, -19}, {554467635ull, -19},
{413030634ull, -19}, {605373425ull, -19}, {967498269ull, -19}, {110893527ull, -18}, {109794316ull, -18}, {221787054ull, -18},
{181062422ull, -18}, {443574108ull, -18}, {302137107ull, -18}, {544286477ull, -18}, {604274214ull, -18}, {968597480ull, -18},
{985662163ull, -18}, {141437001ull, -17}, {156847485ull, -17}, {193719496ull, -17}, {358272223ull, -17}, {641146225ull, -17},
{551991719ull, -17}, {939430711ull, -17}, {761121699ull, -17}, {128229245ull, -16}, {125477988ull, -16}, {256458490ull, -16},
{253707233ull, -16}, {512916980ull, -16}, {510165723ull, -16}, {682972221ull, -16}, {677469707ull, -16}, {102583396ull, -15},
{205166792ull, -15}, {132192433ull, -15}, {410333584ull, -15}, {337359225ull, -15}, {820667168ull, -15}, {612749119ull, -15},
{977620914ull, -15}, {995570133ull, -15}, {180929311ull, -14}, {134943690ull, -14}, {315873001ull, -14}, {269887380ull, -14},
{631746002ull, -14}, {477805429ull, -14}, {893641527ull, -14}, {955610858ull, -14}, {101561468ull, -13}, {107954952ull, -13},
{265092267ull, -13}, {215909904ull, -13}, {530184534ull, -13}, {431819808ull, -13}, {739700954ull, -13}, {801670285ull, -13},
{118430773ull, -12}, {174892215ull, -12}, {160334057ull, -12}, {411753761ull, -12}, {320668114ull, -12}, {579366897ull, -12},
{641336228ull, -12}, {139913772ull, -11}, {104226853ull, -11}, {230999419ull, -11}, {208453706ull, -11}, {413170713ull, -11},
{416907412ull, -11}, {826341426ull, -11}, {784986699ull, -11}, {100670713ull, -10}, {104407412ull, -10}, {162278926ull, -10},
{159986699ull, -10}, {314792227ull, -10}, {319973398ull, -10}, {629584454ull, -10}, {630181171ull, -10}, {101901602ull, -9},
{101223398ull, -9}, {125678204ull, -9}, {126274921ull, -9}, {251356408ull, -9}, {250596717ull, -9}, {500759691ull, -9},
{501193434ull, -9}, {100369066ull, -8}, {100021559ull, -8}, {200347507ull, -8}, {200043118ull, -8}, {400304389ull, -8},
{400086236ull, -8}, {800218153ull, -8}, {800172472ull, -8}, {100070014ull, -7}, {100008111ull, -7}, {160061903ull, -7},
{160016222ull, -7}, {320045681ull, -7}, {320032444ull, -7}, {640013237ull, -7}, {640064888ull, -7}, {100014431ull, -6},
{100001194ull, -6}, {128013237ull, -6}, {128002388ull, -6}, {256010849ull, -6}, {256004776ull, -6}, {512006073ull, -6},
{512009552ull, -6}, {100001474ull, -5}, {100001651ull, -5}, {102402948ull, -5}, {102400177ull, -5}, {204802771ull, -5},
{204800354ull, -5}, {409602417ull, -5}, {409600708ull, -5}, {819201709ull, -5}, {819201416ull, -5}, {100000542ull, -4},
{100000083ull, -4}, {163840459ull, -4}, {163840166ull, -4}, {327680293ull, -4}, {327680332ull, -4}, {655360586ull, -4},
{655360039ull, -4}, {100000043ull, -3}, {100000082ull, -3}, {131072086ull, -3}, {131072039ull, -3}, {262144047ull, -3},
{262144078ull, -3}, {524288094ull, -3}, {524288031ull, -3}, {100000022ull, -2}, {100000003ull, -2}, {104857619ull, -2},
{104857606ull, -2}, {209715213ull, -2}, {209715212ull, -2}, {419430426ull, -2}, {419430424ull, -2}, {838860851ull, -2},
{838860849ull, -2}, {100000006ull, -1}, {100000004ull, -1}, {167772171ull, -1}, {167772169ull, -1}, {335544341ull, -1},
{335544339ull, -1}, {671088681ull, -1}, {671088679ull, -1}, {100000005ull, 0}, {100000003ull, 0}, {134217737ull, 0},
{134217735ull, 0}, {268435473ull, 0}, {268435471ull, 0}, {536870945ull, 0}, {536870943ull, 0}, {100000029ull, 1},
{100000003ull, 1}, {107374189ull, 1}, {107374227ull, 1}, {214748429ull, 1}, {214748403ull, 1}, {429496909ull, 1},
{429496755ull, 1}, {858993613ull, 1}, {858993715ull, 1}, {100000169ull, 2}, {100000087ull, 2}, {171798825ull, 2},
{171798743ull, 2}, {343597609ull, 2}, {343597527ull, 2}, {687196201ull, 2}, {687196119ull, 2}, {100000469ull, 3},
{100000043ull, 3}, {137440469ull, 3}, {137440043ull, 3}, {274878677ull, 3}, {274878251ull, 3}, {549759189ull, 3},
{549762859ull, 3}, {100001425ull, 4}, {100002159ull, 4}, {109956753ull, 4}, {109957487ull, 4}, {219913873ull, 4},
{219914607ull, 4}, {439828113ull, 4}, {439828847ull, 4}, {879623825ull, 4}, {879624559ull, 4}, {100017693ull, 5},
{100030947ull, 5}, {175924765ull, 5}, {175938019ull, 5}, {351856157ull, 5}, {351869411ull, 5}, {703718941ull, 5},
{703732195ull, 5}, {100098361ull, 6}, {100048583ull, 6}, {140796217ull, 6}, {140746439ull, 6}, {281960761ull, 6},
{281648839ull, 6}, {563765561ull, 6}, {563453639ull, 6}, {100222629ull, 7}, {100055387ull, 7}, {113591973ull, 7},
{112900443ull, 7}, {226313893ull, 7}, {226670939ull, 7}, {451757733ull, 7}, {454211931ull, 7}, {902645413ull, 7},
{900905307ull, 7}, {101256737ull, 8}, {100069855ull, 8}, {187239969ull, 8}, {181858783ull, 8}, {375983649ull, 8},
{362213855ull, 8}, {736693793ull, 8}, {739701215ull, 8}, {112106605ull, 9}, {105997203ull, 9}, {154049645ull, 9},
{147940243ull, 9}, {338599021ull, 9}, {332489619ull, 9}, {640588909ull, 9}, {701588371ull, 9}, {109207003ull, 10},
{111641308ull, 10}, {181804873ull, 10}, {220848311ull, 10}, {383131465ull, 10}, {422174903ull, 10}, {785784649ull, 10},
{824828087ull, 10}, {927305292ull, 10}, {153252586ull, 11}, {172774305ull, 11}, {306505172ull, 11}, {326026891ull, 11},
{402166323ull, 11}, {652053782ull, 11}, {804332646ull, 11}, {882419522ull, 11}, {125727435ull, 12}, {138219444ull, 12},
{276438888ull, 12}, {579429205ull, 12}, {869927513ull, 12}, {816824655ull, 12}, {100581948ull, 13}, {115885841ull, 13},
{216467789ull, 13}, {163364931ull, 13}, {258323111ull, 13}, {326729862ull, 13}, {585052973ull, 13}, {653459724ull, 13},
{964885693ull, 13}, {950503335ull, 13}, {159492881ull, 14}, {144373295ull, 14}, {220339839ull, 14}, {288746590ull, 14},
{509086429ull, 14}, {577493180ull, 14}, {881359356ull, 14}, {141275655ull, 15}, {115498636ull, 15}, {256774291ull, 15},
{230997272ull, 15}, {487771563ull, 15}, {461994544ull, 15}, {949766107ull, 15}, {923989088ull, 15}, {113020524ull, 16},
{111036483ull, 16}, {200264029ull, 16}, {174487010ull, 16}, {400528058ull, 16}, {374751039ull, 16}, {775279097ull, 16},
{749502078ull, 16}, {989431413ull, 16}, {983463776ull, 16}, {165366627ull, 17}, {139589608ull, 17}, {304956235ull, 17},
{279179216ull, 17}, {609912470ull, 17}, {584135451ull, 17}, {121982494ull, 18}, {243964988ull, 18}, {218187969ull, 18},
{487929976ull, 18}, {316694311ull, 18}, {804624287ull, 18}, {633388622ull, 18}, {111578190ull, 19}, {111211513ull, 19},
{222423026ull, 19}, {993166857ull, 19}, {191637274ull, 20}, {239729931ull, 20}, {479459862ull, 20}, {691498745ull, 20},
{958919724ull, 20}, {896981543ull, 20}, {135677315ull, 21}, {138299749ull, 21}, {204171581ull, 21}, {276599498ull, 21},
{480771079ull, 21}, {346404981ull, 21}, {961542158ull, 21}, {692809962ull, 21}, {108541852ull, 22}, {217083704ull, 22},
{198482245ull, 23}, {132388179ull, 23}, {158785796ull, 24}, {130725825ull, 24}, {102213355ull, 25}, {104580660ull, 25},
{245785513ull, 25}, {537664439ull, 25}, {102297203ull, 26}, {100709124ull, 26}, {163541368ull, 26}, {124076409ull, 26},
{287617777ull, 26}, {248152818ull, 26}, {701205807ull, 26}, {496305636ull, 26}, {945570937ull, 26}, {992611272ull, 26},
{156027145ull, 27}, {165435212ull, 27}, {321462357ull, 27}, {330870424ull, 27}, {652332781ull, 27}, {661740848ull, 27},
{866641019ull, 27}, {885457153ull, 27}, {124821716ull, 28}, {169564977ull, 28}, {188381111ull, 28}, {438024543ull, 28},
{277867633ull, 28}, {876049086ull, 28}, {616997587ull, 28}, {103708508ull, 29}, {102481999ull, 29}, {160156910ull, 29},
{162957353ull, 29}, {323114263ull, 29}, {325914706ull, 29}, {649028969ull, 29}, {128125528ull, 30}, {130925971ull, 30},
{309181533ull, 30}, {208921465ull, 30}, {364912453ull, 30}, {983275519ull, 30}, {729824906ull, 30}, {100260068ull, 31},
{128153322ull, 31}, {175482913ull, 31}, {167137172ull, 31}, {342620085ull, 31}, {334274344ull, 31}, {685240170ull, 31},
{905307819ull, 31},
};
static const HardNum hard_d[] = {
{74109846876186982ull, -340}, {24703282292062327ull, -340}, {27173610521268560ull, -339}, {61758205730155818ull, -339}, {36313824969331621ull, -338}, {69910288886536386ull, -338},
{91426847762922673ull, -337}, {34955144443268193ull, -337}, {82956092264974501ull, -336}, {77308921933009053ull, -336}, {64388364195791694ull, -335}, {95876650002191860ull, -335},
{28762995000657558ull, -334}, {14381497500328779ull, -333}, {75606288961444439ull, -332}, {46322539876888582ull, -332}, {19753511779977746ull, -331}, {66076051656866328ull, -331},
{97750974221912874ull, -330}, {48875487110956437ull, -329}, {14134730757202822ull, -329}, {48994701218807125ull, -328}, {14015516649352134ull, -328}, {46203519299721767ull, -327},
{36404579055960342ull, -327}, {56566656632692798ull, -326}, {18202289527980171ull, -326}, {65863780201558112ull, -325}, {32931890100779056ull, -324}, {65863780201558112ull, -324},
{62066539252061895ull, -324}, {94147108517904511ull, -324}, {93755150908154054ull, -324}, {16210548799908596ull, -323}, {12413307850412379ull, -323}, {20348318083379389ull, -323},
{24826615700824758ull, -323}, {61726010918087319ull, -323}, {49653231401649516ull, -323}, {81393272333517556ull, -323}, {78277088051970491ull, -323}, {45174933784204147ull, -322},
{43928460071585321ull, -322}, {90349867568408294ull, -322}, {65581071679223275ull, -322}, {11029344697030951ull, -321}, {11246503766916416ull, -321}, {13116214335844655ull, -321},
{40595116720152791ull, -321}, {26232428671689310ull, -321}, {81190233440305582ull, -321}, {52464857343378620ull, -321}, {92625655923760481ull, -321}, {98480187053777645ull, -321},
{11782876995271643ull, -320}, {10492971468675724ull, -320}, {23565753990543286ull, -320}, {22275848463947367ull, -320}, {45841602454490653ull, -320}, {44551696927894734ull, -320},
{91683204908981306ull, -320}, {90393299382385387ull, -320}, {11232169333451601ull, -319}, {18594622087115445ull, -319}, {17304716560519526ull, -319}, {37189244174230890ull, -319},
{35899338647634971ull, -319}, {74378488348461780ull, -319}, {71798677295269942ull, -319}, {10017659888038016ull, -318}, {10704396765175263ull, -318}, {14875697669692356ull, -318},
{12295886616500518ull, -318}, {29751395339384712ull, -318}, {40757376429289311ull, -318}, {59502790678769424ull, -318}, {70508771768674023ull, -318}, {96993619177729650ull, -318},
{98367092932004144ull, -318}, {16165603196288275ull, -317}, {14239101729162254ull, -317}, {19398723835545930ull, -317}, {30404704925450529ull, -317}, {49803428760996459ull, -317},
{60809409850901058ull, -317}, {99606857521992918ull, -317}, {12932482557030620ull, -316}, {13592477601310723ull, -316}, {15518979068436744ull, -316}, {26524960158341343ull, -316},
{31037958136873488ull, -316}, {42043939226778087ull, -316}, {73081897363651575ull, -316}, {84087878453556174ull, -316}, {10345986045624496ull, -315}, {11665976134184702ull, -315},
{14616379472730315ull, -315}, {19546767944116237ull, -315}, {29232758945460630ull, -315}, {58465517890921260ull, -315}, {86553072689249135ull, -315}, {99403401691996293ull, -315},
{11693103578184252ull, -314}, {17310614537849827ull, -314}, {23386207156368504ull, -314}, {34621229075699654ull, -314}, {46772414312737008ull, -314}, {69242458151399308ull, -314},
{93544828625474016ull, -314}, {85178827712689829ull, -314}, {11027683045104239ull, -313}, {11235021919331150ull, -313}, {22262704964435389ull, -313}, {22470043838662300ull, -313},
{44525409928870778ull, -313}, {35744731267632769ull, -313}, {80270141196503547ull, -313}, {71489462535265538ull, -313}, {10578282168330993ull, -312}, {10992959916784815ull, -312},
{19566299703795913ull, -312}, {17976035070929840ull, -312}, {39132599407591826ull, -312}, {30351920746353817ull, -312}, {83865348210689515ull, -312}, {60703841492707634ull, -312},
{99007085403391816ull, -312}, {98246176267433387ull, -312}, {16773069642137903ull, -311}, {14380828056743872ull, -311}, {33546139284275806ull, -311}, {31153897698881775ull, -311},
{67092278568551612ull, -311}, {43930771850569731ull, -311}, {97430510042715586ull, -311}, {87861543701139462ull, -311}, {10699947638429171ull, -310}, {12461559079552710ull, -310},
{21399895276858342ull, -310}, {24923118159105420ull, -310}, {52869108047875363ull, -310}, {39776918824052161ull, -310}, {69484520153945643ull, -310}, {79553837648104322ull, -310},
{10169387724675190ull, -309}, {23161506717981881ull, -309}, {19938494527284336ull, -309}, {46323013435963762ull, -309}, {43100001245266217ull, -309}, {62838355311517531ull, -309},
{86200002490532434ull, -309}, {10017182159012065ull, -308}, {10007023051651100ull, -308}, {29807671560409993ull, -308}, {27229261807851957ull, -308}, {59615343120819986ull, -308},
{54458523615703914ull, -308}, {93290629310067033ull, -308}, {82976990299834889ull, -308}, {13985796426210426ull, -307}, {11954260505362513ull, -307}, {31096876436689011ull, -307},
{42504263110341401ull, -307}, {48754830278877719ull, -307}, {85008526220682802ull, -307}, {71569603626182499ull, -307}, {10313639010232144ull, -306}, {12251192923190071ull, -306},
{19689489763036621ull, -306}, {16814147592651027ull, -306}, {47067217779802357ull, -306}, {25940056931572939ull, -306}, {65319036457646181ull, -306}, {80695512965104411ull, -306},
{10163674161902605ull, -305}, {10225651560005198ull, -305}, {10763533555220761ull, -305}, {31890694403450179ull, -305}, {38041285006433471ull, -305}, {63781388806900358ull, -305},
{76082570012866942ull, -305}, {86446197305875599ull, -305}, {94534341821816818ull, -305}, {28815399101958533ull, -304}, {27130184425948387ull, -304}, {42801794983935263ull, -304},
{54260368851896774ull, -304}, {70774586747888723ull, -304}, {12874331381591530ull, -303}, {26018119925563187ull, -303}, {18738346896762349ull, -303}, {37207236631144571ull, -303},
{52305697013506501ull, -303}, {59585470042307339ull, -303}, {10299465105273224ull, -302}, {17848695296454189ull, -302}, {15098460382361930ull, -302}, {35697390592908378ull, -302},
{32947155678816119ull, -302}, {71394781185816756ull, -302}, {68644546271724497ull, -302}, {86223784405798559ull, -302}, {14829003219981803ull, -301}, {12078768305889544ull, -301},
{29658006439963606ull, -301}, {26907771525871347ull, -301}, {56565777965834953ull, -301}, {53815543051742694ull, -301}, {89955197762517473ull, -301}, {84454727934332955ull, -301},
{12963296541622346ull, -300}, {10213061627530087ull, -300}, {16890945586866591ull, -300}, {49887894006498449ull, -300}, {33781891173733182ull, -300}, {76599429843844465ull, -300},
{90740140516618797ull, -300}, {10605533004580749ull, -299}, {15319885968768893ull, -299}, {14533769104772519ull, -299}, {30639771937537786ull, -299}, {38103185705923139ull, -299},
{68742957643460925ull, -299}, {76206371411846278ull, -299}, {92705432676609732ull, -299}, {97024378989009589ull, -299}, {13748591528692185ull, -298}, {16105063544849227ull, -298},
{27497183057384370ull, -298}, {22390241305156059ull, -298}, {54994366114768740ull, -298}, {49887424362540429ull, -298}, {75028135403767757ull, -298}, {99774848725080858ull, -298},
{10998873222953748ull, -297}, {13747840098359353ull, -297}, {21997746445907496ull, -297}, {20818759007496143ull, -297}, {43995492891814992ull, -297}, {34960596825769723ull, -297},
{87990985783629984ull, -297}, {69921193651539446ull, -297}, {10213883504456622ull, -296}, {10134482816207511ull, -296}, {11313470254618864ull, -296}, {20268965632415022ull, -296},
{42816505453403639ull, -296}, {88229187848377317ull, -296}, {51716755997312487ull, -294}, {49893896646453611ull, -294}, {99787793292907222ull, -294}, {10025726429723818ull, -293},
{11025547839372952ull, -293}, {12348496485407261ull, -293}, {19228414918237894ull, -293}, {24696992970814522ull, -293}, {38456829836475788ull, -293}, {52628185672741925ull, -293},
{76913659672951576ull, -293}, {98787971883258088ull, -293}, {10525637134548385ull, -292}, {21051274269096770ull, -292}, {42102548538193540ull, -292}, {62177767684583837ull, -292},
{84205097076387080ull, -292}, {87439296807499961ull, -292}, {11141873644471615ull, -291}, {14376073375584496ull, -291}, {16841019415277416ull, -291}, {25517947020056111ull, -291},
{33682038830554832ull, -291}, {42358966435333527ull, -291}, {67364077661109664ull, -291}, {76041005265888359ull, -291}, {10648884436533031ull, -290}, {10175741814935837ull, -290},
{23033154394021801ull, -290}, {46066308788043602ull, -290}, {92132617576087204ull, -290}, {93868003097042943ull, -290}, {93710818131609906ull, -290}, {16344060890070554ull, -289},
{32688121780141108ull, -289}, {21550217452937771ull, -289}, {54238339233078879ull, -289}, {43100434905875542ull, -289}, {97338774138954421ull, -289}, {86200869811751084ull, -289},
{23922916558672219ull, -288}, {25020988494849249ull, -288}, {47845833117344438ull, -288}, {36707928790141101ull, -288}, {60081809380724805ull, -288}, {73415857580282202ull, -288},
{11796747488909555ull, -287}, {12016361876144961ull, -287}, {12894819425086585ull, -287}, {36488314402905695ull, -287}, {72976628805811390ull, -287}, {96130895009159688ull, -287},
{99487540239493147ull, -287}, {14595325761162278ull, -286}, {12455590650615773ull, -286}, {29190651522324556ull, -286}, {27050916411778051ull, -286}, {58381303044649112ull, -286},
{54101832823556102ull, -286}, {77638919039567657ull, -286}, {99644725204926184ull, -286}, {10698675552732525ull, -285}, {59665144110977015ull, -285}, {56241567934102607ull, -285},
{61376932199414219ull, -285}, {11933028822195403ull, -284}, {11883541025330378ull, -284}, {23866057644390806ull, -284}, {17018905290641990ull, -284}, {47732115288781612ull, -284},
{95464230577563224ull, -284}, {99333196926222857ull, -284}, {98541392176382457ull, -284}, {17048597968761005ull, -283}, {13615124232513592ull, -283}, {34097195937522010ull, -283},
{30663722201274597ull, -283}, {44318436671280209ull, -283}, {61327444402549194ull, -283}, {88636873342560418ull, -283}, {91911986128839751ull, -283}, {13638878375008804ull, -282},
{10173732448767775ull, -282}, {27277756750017608ull, -282}, {30679558296271405ull, -282}, {57957315046289013ull, -282}, {61359116592542810ull, -282}, {98905622361309041ull, -282},
{10332093398735855ull, -281}, {12271823318508562ull, -281}, {21141845090763327ull, -281}, {24543646637017124ull, -281}, {42283690181526654ull, -281}, {49087293274034248ull, -281},
{84567380363053308ull, -281}, {98174586548068496ull, -281}, {99246290121076686ull, -281}, {14192034835607624ull, -280}, {17301422056565203ull, -280}, {28384069671215248ull, -280},
{31493456892172827ull, -280}, {59877526563388075ull, -280}, {62986913784345654ull, -280}, {11975505312677615ull, -279}, {15084892533635194ull, -279}, {23951010625355230ull, -279},
{27060397846312809ull, -279}, {47902021250710460ull, -279}, {32971143240792833ull, -279}, {95804042501420920ull, -279}, {65942286481585666ull, -279}, {11821490788960048ull, -278},
{11569248201690693ull, -278}, {19160808500284184ull, -278}, {23390738990650741ull, -278}, {38321617000568368ull, -278}, {46781477981301482ull, -278}, {76643234001136736ull, -278},
{93562955962602964ull, -278}, {10116917080952250ull, -277}, {17071067513827841ull, -277}, {16970170478920099ull, -277}, {25530928494560955ull, -277}, {33940340957840198ull, -277},
{51061856989121910ull, -277}, {76491888448775123ull, -277}, {93512507445149093ull, -277}, {10212371397824382ull, -276}, {15217660061828831ull, -276}, {20424742795648764ull, -276},
{25430031459653213ull, -276}, {40849485591297528ull, -276}, {45854774255301977ull, -276}, {81698971182595056ull, -276}, {86704259846599505ull, -276}, {11054631413531728ull, -275},
{11173070316662175ull, -275}, {22227701730193903ull, -275}, {17340851969319901ull, -275}, {44573842363518253ull, -275}, {89147684727036506ull, -275}, {10372064983905374ull, -274},
{13825306014203742ull, -274}, {17876912506659480ull, -274}, {35635386110188513ull, -274}, {27769050931537931ull, -274}, {71270772220377026ull, -274}, {47553327781294833ull, -274},
{87121881480808637ull, -274}, {95106655562589666ull, -274}, {15851109260431611ull, -273}, {23717444439082193ull, -273}, {31702218520863222ull, -273}, {63404437041726444ull, -273},
{77587528143923581ull, -273}, {82473143715496556ull, -273}, {13205967987882542ull, -272}, {10637812435065945ull, -271}, {26631679799554815ull, -269}, {27804227536732329ull, -269},
{29367624519635681ull, -269}, {55608455073464658ull, -269}, {87321175067455367ull, -269}, {10652671919821926ull, -268}, {10162080388871788ull, -268}, {15588158634007051ull, -268},
{18714952599813755ull, -268}, {43147090405264311ull, -268}, {51454666850731209ull, -268}, {90938560564212209ull, -268}, {92011366016165423ull, -268}, {17151555616910403ull, -267},
{14971962079851004ull, -267}, {34303111233820806ull, -267}, {32123517696761407ull, -267}, {68606222467641612ull, -267}, {43557888108035009ull, -267}, {70785816004701011ull, -267},
{87115776216070018ull, -267}, {10455252451254521ull, -266}, {10233894834233284ull, -266}, {20910504902509042ull, -266}, {20689147285487805ull, -266}, {49875311102191969ull, -266},
{41378294570975610ull, -266}, {99750622204383938ull, -266}, {74702287844777335ull, -266}, {10329234407672373ull, -265}, {11054664199022202ull, -265}, {13329597309520690ull, -265},
{14940457568955467ull, -265}, {26659194619041380ull, -265}, {29880915137910934ull, -265}, {84810164635428471ull, -265}, {59761830275821868ull, -265}, {93749896400687304ull, -265},
{95200755983386962ull, -265}, {10663677847616552ull, -264}, {17107118885355660ull, -264}, {21327355695233104ull, -264}, {42654711390466208ull, -264}, {66704529459064921ull, -264},
{85309422780932416ull, -264}, {87033368863290135ull, -264}, {11162935993120497ull, -263}, {10364122960314185ull, -263}, {17406673772658027ull, -263}, {31491775397345711ull, -263},
{59661978646721079ull, -263}, {13261024588532353ull, -262}, {23200477029094363ull, -262}, {89480335968407109ull, -262}, {46400954058188726ull, -262}, {99242940385525986ull, -262},
{92801908116377452ull, -262}, {12581551756928873ull, -261}, {14594706248390294ull, -261}, {20533113709378481ull, -261}, {33819402301259853ull, -261}, {72268794406998971ull, -261},
{77502465033034659ull, -261}, {14212286552777225ull, -260}, {10854121819278692ull, -259}, {11369829242221780ull, -259}, {95377789972272859ull, -259}, {70645378128256257ull, -258},
{66941386284672845ull, -258}, {76201365893631375ull, -258}, {12963971452541942ull, -257}, {13388277256934569ull, -257}, {15240273178726275ull, -257}, {26776554513869138ull, -257},
{42016827692595413ull, -257}, {53553109027738276ull, -257}, {84033655385190826ull, -257}, {95569936720333689ull, -257}, {10031732518519452ull, -256}, {12192218542981020ull, -256},
{23728499878123883ull, -256}, {24384437085962040ull, -256}, {35920718421104903ull, -256}, {48768874171924080ull, -256}, {71841436842209806ull, -256}, {97537748343848160ull, -256},
{11536281335142863ull, -255}, {19507549668769632ull, -255}, {21290056169527679ull, -255}, {39015099337539264ull, -255}, {42580112339055358ull, -255}, {78030198675078528ull, -255},
{85160224678110716ull, -255}, {12397528033651221ull, -254}, {10655030268720728ull, -254}, {23052558302371949ull, -254}, {21310060537441456ull, -254}, {46105116604743898ull, -254},
{44362618839813405ull, -254}, {72722687908631941ull, -254}, {88725237679626810ull, -254}, {10615021532893174ull, -253}, {11027535063203359ull, -253}, {21642556596096533ull, -253},
{47182622252364237ull, -253}, {43285113192193066ull, -253}, {94365244504728474ull, -253}, {90467735444557303ull, -253}, {99685181443209706ull, -253}, {98490379807830324ull, -253},
{19652550712979929ull, -252}, {15755041652808758ull, -252}, {39305101425959858ull, -252}, {31510083305617516ull, -252}, {78610202851919716ull, -252}, {63020166611235032ull, -252},
{86405220972262058ull, -252}, {94860260741100696ull, -252}, {10067521391595415ull, -251}, {14295041276014734ull, -251}, {30862585823282541ull, -251}, {10326520384529405ull, -250},
{10527031712310558ull, -250}, {13835530955299591ull, -250}, {10025815727457684ull, -249}, {10052442524521823ull, -249}, {11977426072740902ull, -249}, {20024755319451195ull, -249},
{61731859513131121ull, -249}, {57186852970624975ull, -249}, {96006544176576291ull, -249}, {86916531091563999ull, -249}, {15982377136631141ull, -248}, {11437370594124995ull, -248},
{32002181392192097ull, -248}, {22874741188249990ull, -248}, {64004362784384194ull, -248}, {54876922580442087ull, -248}, {82296670311198223ull, -248}, {91498964752999960ull, -248},
{18269851255456140ull, -247}, {18299792950599992ull, -247}, {45741996952714017ull, -247}, {91483993905428034ull, -247}, {14615881004364912ull, -246}, {12811352150177187ull, -246},
{34765115351868407ull, -246}, {78672641755250847ull, -246}, {98642225931891230ull, -246}, {84205995098389430ull, -246}, {11307845676539303ull, -245}, {16119387478002796ull, -245},
{27427233154542099ull, -245}, {16841199019677886ull, -245}, {62553254277248051ull, -245}, {33682398039355772ull, -245}, {67364796078711544ull, -245}, {10586034134864213ull, -244},
{18862271336368138ull, -244}, {16552474403007850ull, -244}, {27715957771212135ull, -244}, {43113533707539841ull, -244}, {80838076380276117ull, -244}, {60820906577227835ull, -244},
{10162785420963003ull, -243}, {10315380511290544ull, -243}, {11086383108484854ull, -243}, {12164181315445567ull, -243}, {23250564423930421ull, -243}, {24328362630891134ull, -243},
{46501128847860842ull, -243}, {47578927054821555ull, -243}, {93002257695721684ull, -243}, {95157854109643110ull, -243}, {10593583617925024ull, -242}, {19031570821928622ull, -242},
{56016914258825153ull, -242}, {38063141643857244ull, -242}, {94080055902682397ull, -242}, {76126283287714488ull, -242}, {12065621417333601ull, -241}, {25997520226523643ull, -241},
{24131242834667202ull, -241}, {51995040453047286ull, -241}, {50128763061190845ull, -241}, {69948813068015195ull, -241}, {66216258284302313ull, -241}, {10503298698182682ull, -240},
{10025752612238169ull, -240}, {13989762613603039ull, -240}, {20051505224476338ull, -240}, {27979525227206078ull, -240}, {40103010448952676ull, -240}, {55959050454412156ull, -240},
{80206020897905352ull, -240}, {15575366614148987ull, -239}, {12123485221746598ull, -239}, {31150733228297974ull, -239}, {24246970443493196ull, -239}, {62301466456595948ull, -239},
{46164753059825975ull, -239}, {90000318292491533ull, -239}, {92329506119651950ull, -239}, {10596943029590856ull, -238}, {12926130856751273ull, -238}, {18465901223930390ull, -238},
{41988975110272519ull, -238}, {36931802447860780ull, -238}, {93693498537277611ull, -238}, {73863604895721560ull, -238}, {14852480380762493ull, -237}, {14772720979144312ull, -237},
{29625201359906805ull, -237}, {29545441958288624ull, -237}, {59170643318195429ull, -237}, {59090883916577248ull, -237}, {11850080543962722ull, -236}, {11770321142344541ull, -236},
{23700161087925444ull, -236}, {23620401686307263ull, -236}, {63120670166183003ull, -236}, {47240803372614526ull, -236}, {78920777558133299ull, -236}, {94481606745229052ull, -236},
{12656037793883873ull, -235}, {12496518990647511ull, -235}, {25312075587767746ull, -235}, {15720347990332115ull, -235}, {41032423578099861ull, -235}, {53608701970365553ull, -235},
{82064847156199722ull, -235}, {72473119558764091ull, -235}, {10252445277696188ull, -234}, {10594125351484021ull, -234}, {15219149113307920ull, -234}, {19525135268659095ull, -234},
{34744284381967015ull, -234}, {39050270537318190ull, -234}, {69488568763934030ull, -234}, {87692268672072011ull, -234}, {99630471851392255ull, -234}, {13897713752786806ull, -233},
{15620108214927276ull, -233}, {27795427505573612ull, -233}, {31240216429854552ull, -233}, {70349765995004265ull, -233}, {81663888054580366ull, -233}, {73794554919285205ull, -233},
{14069953199000853ull, -232}, {28139906398001706ull, -232}, {14758910983857041ull, -232}, {42898817381858747ull, -232}, {29517821967714082ull, -232}, {85797634763717494ull, -232},
{59035643935428164ull, -232}, {10625164274719913ull, -231}, {10784428387911551ull, -231}, {13380995414144665ull, -231}, {26761990828289330ull, -231}, {40302250355625633ull, -231},
{88473833846546427ull, -231}, {67064241183914963ull, -231}, {99178630177862159ull, -231}, {94781816691354121ull, -231}, {10704796331315732ull, -230}, {14547033515191221ull, -230},
{21409592662631464ull, -230}, {25251829846506953ull, -230}, {46661422509138417ull, -230}, {50503659693013906ull, -230}, {93322845018276834ull, -230}, {11711570319170650ull, -229},
{10869179375377879ull, -229}, {22580749694548529ull, -229}, {21738358750755758ull, -229}, {44319108445304287ull, -229}, {88638216890608574ull, -229}, {10211647199129291ull, -228},
{11432176869885586ull, -228}, {21643824069014877ull, -228}, {14148419064745661ull, -228}, {46192959696371591ull, -228}, {28296838129491322ull, -228}, {92385919392743182ull, -228},
{56593676258982644ull, -228}, {95755483167914266ull, -228}, {97732290292597609ull, -228}, {17896121566880269ull, -227}, {13061922186801631ull, -227}, {35792243133760538ull, -227},
{71584486267521076ull, -227}, {38697554692102375ull, -227}, {79323997205941551ull, -227}, {77395109384204750ull, -227}, {10835315313788665ull, -226}, {15479021876840950ull, -226},
{30958043753681900ull, -226}, {82419801581309741ull, -226}, {61916087507363800ull, -226}, {11835461822915009ull, -225}, {11144895751325484ull, -225}, {12383217501472760ull, -225},
{24766435002945520ull, -225}, {79943158081015189ull, -225}, {49532870005891040ull, -225}, {98136524941267697ull, -225}, {99065740011782080ull, -225}, {10182800429814018ull, -224},
{30134061646488339ull, -224}, {19813148002356416ull, -224}, {70036584079836981ull, -224}, {39626296004712832ull, -224}, {79252592009425664ull, -224}, {10099932501223275ull, -223},
{29968325789306853ull, -223}, {19757902716629254ull, -223}, {59936651578613706ull, -223}, {49726228505936107ull, -223}, {90125958510829207ull, -223}, {69705112365474009ull, -223},
{12340900144376578ull, -222}, {11456975572741986ull, -222}, {22109360931236881ull, -222}, {13587452644440965ull, -222}, {44218721862473762ull, -222}, {29747344646398205ull, -222},
{97763942225990531ull, -222}, {59494689292796410ull, -222}, {99679213443662636ull, -222}, {99724200005150960ull, -222}, {12927913601565792ull, -221}, {11898937858559282ull, -221},
{25855827203131584ull, -221}, {36211301447181101ull, -221}, {72422602894362202ull, -221}, {91009883082463799ull, -221}, {95191502868474256ull, -221}, {12825016027265141ull, -220},
{12001835432859933ull, -220}, {25650032054530282ull, -220}, {24003670865719866ull, -220}, {37240277190187611ull, -220}, {48007341731439732ull, -220}, {85247618921627343ull, -220},
{96014683462879464ull, -220}, {12413425730062537ull, -219}, {12591205211740462ull, -219}, {24826851460125074ull, -219}, {21356349600826317ull, -219}, {46183201060951391ull, -219},
{42712699201652634ull, -219}, {92366402121902782ull, -219}, {60420767461502269ull, -219}, {10198170199882761ull, -218}, {10141034388800164ull, -218}, {17636956467178465ull, -218},
{10695952748580951ull, -218}, {21391905497161902ull, -218}, {42783810994323804ull, -218}, {81954896544006511ull, -218}, {14109565173742772ull, -217}, {10724397465649419ull, -217},
{31831855792126641ull, -217}, {17836069486657741ull, -217}, {35672138973315482ull, -217}, {67731552501989867ull, -217}, {12010197227922437ull, -216}, {10024608150375974ull, -216},
{24020394455844874ull, -216}, {16436490856110851ull, -216}, {29260256267580605ull, -216}, {10330702871266169ull, -215}, {20661405742532338ull, -215}, {11704102507032242ull, -215},
{23408205014064484ull, -215}, {43203684583487871ull, -215}, {86407369166975742ull, -215}, {15806579505097651ull, -214}, {10085827094554013ull, -214}, {20171654189108026ull, -214},
{36730582933574955ull, -214}, {99956900953965559ull, -214}, {73461165867149910ull, -214}, {11200173426221682ull, -213}, {10958842031356088ull, -213}, {18546290012936673ull, -213},
{25771740902218867ull, -213}, {37092580025873346ull, -213}, {51543481804437734ull, -213}, {55397538643944425ull, -213}, {10501761476780022ull, -212}, {10596844939057697ull, -212},
{11079507728788885ull, -212}, {22159015457577770ull, -212}, {44318030915155540ull, -212}, {88636061830311080ull, -212}, {86515243746830978ull, -212}, {16590736554500025ull, -211},
{12196966847895541ull, -211}, {17727212366062216ull, -211}, {21060573030926649ull, -211}, {35454424732124432ull, -211}, {38787785396988865ull, -211}, {70908849464248864ull, -211},
{74242210129113297ull, -211}, {13272589243600020ull, -210}, {11090917744262206ull, -210}, {15515114158795546ull, -210}, {27696867652726659ull, -210}, {31030228317591092ull, -210},
{55393735305453318ull, -210}, {62060456635182184ull, -210}, {10618071394880016ull, -209}, {10206078461355538ull, -209}, {17490789191371121ull, -209}, {13745435592982210ull, -209},
{31236224784353331ull, -209}, {27490871185964420ull, -209}, {79551245826553305ull, -209}, {54981742371928840ull, -209}, {90787306621720038ull, -209}, {94982070350302036ull, -209},
{15910249165310661ull, -208}, {10996348474385768ull, -208}, {31820498330621322ull, -208}, {26906597639696429ull, -208}, {63640996661242644ull, -208}, {58727095970317751ull, -208},
{97798589176935930ull, -208}, {24473618526312079ull, -207}, {53861137743549051ull, -207}, {48947237052624158ull, -207}, {97894474105248316ull, -207}, {10848935491359719ull, -206},
{10465395778110175ull, -206}, {14741702072774679ull, -206}, {17613334544679706ull, -206}, {32355036617454385ull, -206}, {35226669089359412ull, -206}, {67581705706813797ull, -206},
{70453338178718824ull, -206}, {12942014646981754ull, -205}, {15813647118886781ull, -205}, {25884029293963508ull, -205}, {28755661765868535ull, -205}, {54639691059832043ull, -205},
{57511323531737070ull, -205}, {73810132237077733ull, -205}, {13427176233435636ull, -204}, {11502264706347414ull, -204}, {27801073411688077ull, -204}, {23004529412694828ull, -204},
{50805602824382905ull, -204}, {46009058825389656ull, -204}, {75735043764165955ull, -204}, {66141955766179457ull, -204}, {10161120564876581ull, -203}, {10539808942803303ull, -203},
{20322241129753162ull, -203}, {40644482259506324ull, -203}, {45819714636426295ull, -203}, {81288964519012648ull, -203}, {91639429272852590ull, -203}, {96814661649772561ull, -203},
{10779609824541181ull, -202}, {18327885854570518ull, -202}, {29107495679111699ull, -202}, {36655771709141036ull, -202}, {73311543418282072ull, -202}, {76972022283495155ull, -202},
{94012472925961956ull, -202}, {14273528967174789ull, -201}, {12031777988126305ull, -201}, {15394404456699031ull, -201}, {24063555976252610ull, -201}, {39457960432951641ull, -201},
{48127111952505220ull, -201}, {78915920865903282ull, -201}, {61279765430155767ull, -201}, {11537964132395974ull, -200}, {11240111735755617ull, -200}, {22778075868151591ull, -200},
{19250844781002088ull, -200}, {42028920649153679ull, -200}, {38501689562004176ull, -200}, {84057841298307358ull, -200}, {80530610211157855ull, -200}, {95235239353036581ull, -200},
{97571060853624656ull, -200}, {16106122042231571ull, -199}, {32212244084463142ull, -199}, {42793937345911651ull, -199}, {64424488168926284ull, -199}, {85587874691823302ull, -199},
{79000576817641911ull, -199}, {14202357208621535ull, -198}, {14389222928668581ull, -198}, {21443685102967587ull, -198}, {28778445857337162ull, -198}, {42887370205935174ull, -198},
{35926340891659691ull, -198}, {85774740411870348ull, -198}, {78813711097594865ull, -198}, {11361885766897228ull, -197}, {10268665056117405ull, -197}, {22723771533794456ull, -197},
{15762742219518973ull, -197}, {44354322356809089ull, -197}, {31525484439037946ull, -197}, {88708644713618178ull, -197}, {75879806795847035ull, -197}, {98547631110636585ull, -197},
{97968009887463119ull, -197}, {10481714476372879ull, -196}, {15175961359169407ull, -196}, {38486513753313429ull, -196}, {30351922718338814ull, -196}, {68838436471652243ull, -196},
{60703845436677628ull, -196}, {94496112307194529ull, -196}, {78226930237245299ull, -196}, {14269248386577825ull, -195}, {28538496773155650ull, -195}, {46434597050099803ull, -195},
{39926924222120111ull, -195}, {92869194100199606ull, -195}, {79853848444240222ull, -195}, {10588453975615899ull, -194}, {11415398709262260ull, -194}, {21176907951231798ull, -194},
{22003852684878159ull, -194}, {43180760636109957ull, -194}, {44007705369756318ull, -194}, {86361521272219914ull, -194}, {57849995759362063ull, -194}, {99161096845796906ull, -194},
{98765692276915329ull, -194}, {16610748467526894ull, -193}, {11900777045330957ull, -193}, {28511525512857851ull, -193}, {23801554090661914ull, -193}, {57023051025715702ull, -193},
{52313079603519765ull, -193}, {83880687071280831ull, -193}, {95206216362647656ull, -193}, {15172587342899890ull, -192}, {10462615920703953ull, -192}, {18660125983134541ull, -192},
{20925231841407906ull, -192}, {39585357824542447ull, -192}, {41850463682815812ull, -192}, {81435821507358259ull, -192}, {83700927365631624ull, -192}, {12591091045974585ull, -191},
{25182182091949170ull, -191}, {53535512385481051ull, -191}, {55347597072099743ull, -191}, {10072872836779668ull, -190}, {20145745673559336ull, -190}, {11431936351743687ull, -190},
{33389766711921715ull, -190}, {77305427432277771ull, -190}, {94733046075909069ull, -190}, {91455490813949496ull, -190}, {12561749987865647ull, -189}, {13355906684768686ull, -189},
{31577682025303023ull, -189}, {26711813369537372ull, -189}, {58289495394840395ull, -189}, {53423626739074744ull, -189}, {79341283411709077ull, -189}, {69609546100177775ull, -189},
{11657899078968079ull, -188}, {11320050705337380ull, -188}, {23315798157936158ull, -188}, {13921909220035555ull, -188}, {46631596315872316ull, -188}, {27843818440071110ull, -188},
{56025485253772919ull, -188}, {92925344258113933ull, -188}, {10069585685162001ull, -187}, {10178378825110693ull, -187}, {18787777875801206ull, -187}, {11137527376028444ull, -187},
{37237707377971713ull, -187}, {22275054752056888ull, -187}, {74475414755943426ull, -187}, {59512762130028601ull, -187}, {90451612502750348ull, -187}, {89100219008227552ull, -187},
{12307970474362559ull, -186}, {14624804252284126ull, -186}, {26932774726646685ull, -185}, {53865549453293370ull, -185}, {10174603785622081ull, -184}, {10402594807979610ull, -184},
{10773109890658674ull, -184}, {21546219781317348ull, -184}, {43092439562634696ull, -184}, {86184879125269392ull, -184}, {96235977883331785ull, -184}, {14364146520878232ull, -183},
{14459146736373613ull, -183}, {28728293041756464ull, -183}, {19247195576666357ull, -183}, {67127683979593797ull, -183}, {38494391153332714ull, -183}, {86279879340764773ull, -183},
{76988782306665428ull, -183}, {11339316871909976ull, -182}, {11719317733891500ull, -182}, {15245756116540476ull, -182}, {10558029022983876ull, -181}, {10051098758062393ull, -181},
{11824961011868407ull, -181}, {38008747013374283ull, -181}, {34292308199734545ull, -181}, {76017494026748566ull, -181}, {97809196643665511ull, -181}, {13075021570150167ull, -180},
{13716923279893818ull, -180}, {26791944850043985ull, -180}, {27433846559787636ull, -180}, {53583889700087970ull, -180}, {54225791409831621ull, -180}, {70375350083877875ull, -180},
{71659153503365177ull, -180}, {10716777940017594ull, -179}, {11358679649761245ull, -179}, {21433555880035188ull, -179}, {42867111760070376ull, -179}, {85734223520140752ull, -179},
{79659541076368441ull, -179}, {10865561468057320ull, -178}, {10815401576358379ull, -178}, {11260056013420460ull, -178}, {14716971726519226ull, -178}, {35508625896810763ull, -178},
{29433943453038452ull, -178}, {84005765663591369ull, -178}, {90080448107363680ull, -178}, {91758746072214122ull, -178}, {14035620562239261ull, -177}, {16968982929203318ull, -177},
{31004603491442579ull, -177}, {20949451988436793ull, -177}, {62009206982885158ull, -177}, {38965541609909529ull, -177}, {74997720852855001ull, -177}, {77931083219819058ull, -177},
{10055151503005786ull, -176}, {12988513869969843ull, -176}, {23043665372975629ull, -176}, {25977027739939686ull, -176}, {51954055479879372ull, -176}, {68628970358081441ull, -176},
{84299833714592618ull, -176}, {11194052313328588ull, -175}, {14513276849347278ull, -175}, {19994139414220759ull, -175}, {43925692717096467ull, -175}, {34507416263568037ull, -175},
{69014832527136074ull, -175}, {91788799322847883ull, -175}, {97962594027722011ull, -175}, {14899139018401911ull, -174}, {20550104890518969ull, -174}, {29798278036803822ull, -174},
{57883004090145535ull, -174}, {42813761764500047ull, -174}, {98983213871183473ull, -174}, {85627523529000094ull, -174}, {11576600818029107ull, -173}, {13290152801491216ull, -173},
{23153201636058214ull, -173}, {27195181291264577ull, -173}, {46306403272116428ull, -173}, {50348382927322791ull, -173}, {96654786199439219ull, -173}, {16905769446764026ull, -172},
{20947749101970389ull, -172}, {33811538893528052ull, -172}, {41895498203940778ull, -172}, {63089197581224025ull, -172}, {83790996407881556ull, -172}, {93842557920797146ull, -172},
{98975113927455576ull, -172}, {12617839516244805ull, -171}, {25235679032489610ull, -171}, {50471358064979220ull, -171}, {56031749472142985ull, -171}, {95382324722794675ull, -171},
{10094271612995844ull, -170}, {11206349894428597ull, -170}, {20188543225991688ull, -170}, {21300621507424441ull, -170}, {41489164733416129ull, -170}, {42601243014848882ull, -170},
{82978329466832258ull, -170}, {85202486029697764ull, -170}, {11770975119143192ull, -169}, {10966820822121833ull, -169}, {15261171955647148ull, -169}, {17485328518512654ull, -169},
{30522343911294296ull, -169}, {34970657037025308ull, -169}, {49119750711239703ull, -169}, {69941314074050616ull, -169}, {98239501422479406ull, -169}, {98051195094280835ull, -169},
{16373250237079901ull, -168}, {15767588065102528ull, -168}, {32746500474159802ull, -168}, {20821563362810913ull, -168}, {76206613715713747ull, -168}, {88131550827062636ull, -168},
{96422514906547287ull, -168}, {11924937111348889ull, -167}, {14756793005560851ull, -167}, {15968117349515597ull, -167}, {29513586011121702ull, -167}, {93590659012335325ull, -167},
{88336154430213871ull, -167}, {10590850605503402ull, -166}, {10754533488024390ull, -166}, {18718131802467065ull, -166}, {13463627220345611ull, -166}, {37436263604934130ull, -166},
{74872527209868260ull, -166}, {98026749181851839ull, -166}, {99164203188773836ull, -166}, {14974505441973652ull, -165}, {15532692476689995ull, -165}, {29949010883947304ull, -165},
{31065384953379990ull, -165}, {59898021767894608ull, -165}, {62130769906759980ull, -165}, {88172471547692883ull, -165}, {92637967825423627ull, -165}, {10193405842486624ull, -164},
{12426153981351996ull, -164}, {29390823849230961ull, -164}, {24852307962703992ull, -164}, {58781647698461922ull, -164}, {54243131811934953ull, -164}, {99409231850815968ull, -164},
{22604955902079375ull, -163}, {18066440015552406ull, -163}, {45209911804158750ull, -163}, {40671395917631781ull, -163}, {90419823608317500ull, -163}, {58767043776702677ull, -163},
{10006990185681051ull, -162}, {10005458200695543ull, -162}, {18083964721663500ull, -162}, {36167929443327000ull, -162}, {22575748058560885ull, -162}, {72335858886654000ull, -162},
{40683079055039177ull, -162}, {94958339494844469ull, -162}, {81366158110078354ull, -162}, {14467171777330800ull, -161}, {11748735500377577ull, -161}, {28934343554661600ull, -161},
{26215907277708377ull, -161}, {57868687109323200ull, -161}, {52431814555416754ull, -161}, {71460868494089315ull, -161}, {93989884003020616ull, -161}, {11573737421864640ull, -160},
{23147474843729280ull, -160}, {21129030880827805ull, -160}, {46294949687458560ull, -160}, {92589899374917120ull, -160}, {10066367522652302ull, -159}, {10040515230797229ull, -159},
{18517979874983424ull, -159}, {16903224704662244ull, -159}, {37035959749966848ull, -159}, {27373281019894841ull, -159}, {74071919499933696ull, -159}, {64409240769861689ull, -159},
{99830445349507357ull, -159}, {10308580798200479ull, -158}, {16095847119501654ull, -158}, {27696232053959077ull, -158}, {18033553323887070ull, -158}, {55392464107918154ull, -158},
{36067106647774140ull, -158}, {72134213295548280ull, -158}, {12111936130589186ull, -157}, {11843234386595768ull, -157}, {19325357460144014ull, -157}, {14426842659109656ull, -157},
{50628300178880505ull, -157}, {28853685318219312ull, -157}, {79481985497099817ull, -157}, {57707370636438624ull, -157}, {10125660035776101ull, -156}, {20251320071552202ull, -156},
{11977585258592477ull, -156}, {40502640143104404ull, -156}, {23955170517184954ull, -156}, {81005280286208808ull, -156}, {85366391599256330ull, -156}, {15155627010293413ull, -155},
{13763784394667376ull, -155}, {30311254020586826ull, -155}, {17073278319851266ull, -155}, {65849653275915395ull, -155}, {34146556639702532ull, -155}, {68293113279405064ull, -155},
{13169930655183079ull, -154}, {13101885609630598ull, -154}, {26339861310366158ull, -154}, {15749480749777710ull, -154}, {52679722620732316ull, -154}, {10590380560588448ull, -153},
{10318200378378524ull, -153}, {16890172860499532ull, -153}, {12599584599822168ull, -153}, {24262612225579957ull, -153}, {34716902695063443ull, -153}, {68497248416062507ull, -153},
{49461781425224293ull, -153}, {97050448902319828ull, -153}, {98923562850448586ull, -153}, {13137515498773874ull, -152}, {14074072472838253ull, -152}, {31767926949031273ull, -152},
{67155635901417313ull, -152}, {97987005876384207ull, -152}, {90747441869674673ull, -152}, {11957925200361006ull, -151}, {10535301577599649ull, -151}, {22493226777960655ull, -151},
{15253662771251121ull, -151}, {50803393939869487ull, -151}, {30507325542502242ull, -151}, {69676838714475375ull, -151}, {81310719482371729ull, -151}, {10084811252232248ull, -150},
{10755017415658990ull, -150}, {13935367742895075ull, -150}, {27870735485790150ull, -150}, {43563829933159953ull, -150}, {79552992777897001ull, -150}, {63316138060003205ull, -150},
{96333607766314790ull, -150}, {94158566684218818ull, -150}, {11148294194316060ull, -149}, {12663227612000641ull, -149}, {22296588388632120ull, -149}, {23811521806316701ull, -149},
{44593176777264240ull, -149}, {47623043612633402ull, -149}, {89186353554528480ull, -149}, {95246087225266804ull, -149}, {13292470457851953ull, -148}, {11948502190822010ull, -148},
{17837270710905696ull, -148}, {23897004381644020ull, -148}, {35674541421811392ull, -148}, {31300706319412287ull, -148}, {71349082843622784ull, -148}, {87842385287498537ull, -148},
{10560839718378275ull, -147}, {10433568773137429ull, -147}, {20867137546274858ull, -147}, {25240972648673963ull, -147}, {41734275092549716ull, -147}, {50481945297347926ull, -147},
{66975247741223679ull, -147}, {91468724314658667ull, -147}, {96462784547055901ull, -147}, {16194304013780163ull, -146}, {34287641283567763ull, -146}, {70474315823142963ull, -146},
{95864787686864721ull, -146}, {99662854198879595ull, -146}, {12575636559822643ull, -145}, {16134504327761045ull, -145}, {19932570839775919ull, -145}, {45083843959421205ull, -145},
{39865141679551838ull, -145}, {84948985638973043ull, -145}, {79730283359103676ull, -145}, {11486967694354343ull, -144}, {18033537583768482ull, -144}, {12814835303899115ull, -144},
{36067075167536964ull, -144}, {30848372887667597ull, -144}, {66915448055204561ull, -144}, {61696745775335194ull, -144}, {92823423137931954ull, -144}, {97299980151323553ull, -144},
{15470570522988659ull, -143}, {17483836908288629ull, -143}, {30941141045977318ull, -143}, {25722438766107951ull, -143}, {56663579812085269ull, -143}, {51444877532215902ull, -143},
{97671052784562437ull, -143}, {14463937330338674ull, -142}, {10855848158709283ull, -142}, {23709172380807981ull, -142}, {18490470100938614ull, -142}, {42199642481746595ull, -142},
{72738130250663919ull, -142}, {84399284963493190ull, -142}, {10037909347060851ull, -141}, {11261659500151388ull, -141}, {21299568847212239ull, -141}, {16879856992698638ull, -141},
{38179425839910877ull, -141}, {33759713985397276ull, -141}, {71939139825308153ull, -141}, {67519427970794552ull, -141}, {94786160493118148ull, -141}, {99681161105480296ull, -141},
{16155712706867071ull, -140}, {11736000852353470ull, -140}, {27891713559220541ull, -140}, {23472001704706940ull, -140}, {55783427118441082ull, -140}, {51363715263927481ull, -140},
{93888006818827760ull, -140}, {13808512536396377ull, -139}, {14907266482107525ull, -139}, {27617025072792754ull, -139}, {18777601363765552ull, -139}, {32036736927306355ull, -139},
{37555202727531104ull, -139}, {64073473854612710ull, -139}, {98307718673341361ull, -139}, {11271500032593133ull, -138}, {11925813185686020ull, -138}, {12814694770922542ull, -138},
{25629389541845084ull, -138}, {48826702760124237ull, -138}, {97653405520248474ull, -138}, {98394110675470942ull, -138}, {11224586346164406ull, -137}, {37602116413959831ull, -137},
{32737963766827969ull, -137}, {55187136459156781ull, -137}, {89796690769315248ull, -137}, {90357176549550681ull, -137}, {12983088350684101ull, -136}, {15152943721631019ull, -136},
{25966176701368202ull, -136}, {22186951739709799ull, -136}, {60051289106288643ull, -136}, {36254967775867359ull, -136}, {88187321178603763ull, -136}, {72509935551734718ull, -136},
{11898160665210642ull, -135}, {10610664992641454ull, -135}, {14389889954299857ull, -135}, {25644302783225905ull, -135}, {51288605566451810ull, -135}, {93170779756782193ull, -135},
{99230512671214101ull, -135}, {10257721113290362ull, -134}, {17379965101206915ull, -134}, {20515442226580724ull, -134}, {34759930202413830ull, -134}, {68668570667658725ull, -134},
{41882174190330383ull, -134}, {82061768906322896ull, -134}, {83764348380660766ull, -134}, {13733714133531745ull, -133}, {13903972080965532ull, -133}, {27467428267063490ull, -133},
{27807944161931064ull, -133}, {54934856534126980ull, -133}, {55615888323862128ull, -133}, {82232026853756683ull, -133}, {83594090433226979ull, -133}, {10986971306825396ull, -132},
{11668003096560544ull, -132}, {21973942613650792ull, -132}, {16991230802539455ull, -132}, {43947885227301584ull, -132}, {27637686214497277ull, -132}, {87895770454603168ull, -132},
{55275372428994554ull, -132}, {16310199012804307ull, -131}, {13592984642031564ull, -131}, {20841193893481495ull, -131}, {38965173416190247ull, -131}, {71585571441798861ull, -131},
{48027163177544623ull, -131}, {83364775573925980ull, -131}, {89709550964507613ull, -131}, {11779204132127119ull, -130}, {14681252947974231ull, -130}, {16672955114785196ull, -130},
{29903183654835871ull, -130}, {33345910229570392ull, -130}, {46576138769621067ull, -130}, {66691820459140784ull, -130}, {93152277539242134ull, -130}, {12177544565489312ull, -129},
{11636866806601903ull, -129}, {13230228540050675ull, -129}, {42877409087049569ull, -129}, {26460457080101350ull, -129}, {69337866167150919ull, -129}, {90506231831231999ull, -129},
{10089379542294659ull, -128}, {10043505073153131ull, -128}, {10584182832040540ull, -128}, {21168365664081080ull, -128}, {79922048999191459ull, -128}, {42336731328162160ull, -128},
{88389395264823891ull, -128}, {84673462656324320ull, -128}, {12597471293585319ull, -127}, {13011663713038635ull, -127}, {25194942587170638ull, -127}, {16934692531264864ull, -127},
{50389885174341276ull, -127}, {33869385062529728ull, -127}, {96235452901276349ull, -127}, {67738770125059456ull, -127}, {10655486588786843ull, -126}, {12804567503311977ull, -126},
{25855290624979889ull, -126}, {21064817559217751ull, -126}, {32794844605267161ull, -126}, {42129635118435502ull, -126}, {65589689210534322ull, -126}, {84259270236871004ull, -126},
{37486855423686925ull, -125}, {37388393176344551ull, -125}, {74973710847373850ull, -125}, {56156436450023607ull, -125}, {93692522997381719ull, -125}, {93298674008012223ull, -125},
{14994742169474770ull, -124}, {29989484338949540ull, -124}, {33713554319482639ull, -124}, {63703038658432179ull, -124}, {67427108638965278ull, -124}, {97613517472599566ull, -124},
{11995793735579816ull, -123}, {10348626147618778ull, -123}, {23991587471159632ull, -123}, {47983174942319264ull, -123}, {95966349884638528ull, -123}, {59155384883918561ull, -123},
{10742475136988274ull, -122}, {10198263714919285ull, -122}, {11659183054939303ull, -122}, {36810965000719967ull, -122}, {34003602938137897ull, -122}, {51707244922852363ull, -122},
{68007205876275794ull, -122}, {92729253017445435ull, -122}, {92185041595376446ull, -122}, {16861433365939845ull, -121}, {18545850603489087ull, -121}, {33722866731879690ull, -121},
{52268717335368777ull, -121}, {67445733463759380ull, -121}, {89360418542346951ull, -121}, {80376859942084327ull, -121}, {10113407821474422ull, -120}, {13489146692751876ull, -120},
{19668795428521915ull, -120}, {26978293385503752ull, -120}, {38779570642616901ull, -120}, {53956586771007504ull, -120}, {92736157413624405ull, -120}, {61266084727989341ull, -120},
{10679713311316115ull, -119}, {18547231482724881ull, -119}, {21359426622632230ull, -119}, {37094462965449762ull, -119}, {39906658105357111ull, -119}, {74188925930899524ull, -119},
{52271479093840365ull, -119}, {93294177628051334ull, -119}, {93874291910250967ull, -119}, {11463151018291086ull, -118}, {10454295818768073ull, -118}, {20908591637536146ull, -118},
{63734630112131451ull, -118}, {41817183275072292ull, -118}, {92285322428528321ull, -118}, {83634366550144584ull, -118}, {21917446837059159ull, -117}, {23763660869175833ull, -117},
{56178277616735403ull, -117}, {35183937795734581ull, -117}, {58024491648852077ull, -117}, {70367875591469162ull, -117}, {10497169910500411ull, -116}, {10475995673396856ull, -116},
{27155444673757587ull, -116}, {88893538623946567ull, -116}, {93830892200993401ull, -116}, {98704723066729570ull, -116}, {14820530425981924ull, -115}, {14812060731140502ull, -115},
{19757884003028758ull, -115}, {34565709886748549ull, -115}, {69131419773497098ull, -115}, {93822422506151979ull, -115}, {13819508198826282ull, -114}, {52346958519990289ull, -114},
{48393687780416253ull, -114}, {62230135368925379ull, -114}, {96787375560832506ull, -114}, {11260045851912865ull, -113}, {10060513118294379ull, -113}, {22520091703825730ull, -113},
{14613550224677658ull, -113}, {31803502185951577ull, -113}, {42463781671055199ull, -113}, {50370323150203271ull, -113}, {97809572025091703ull, -113}, {96297187904651176ull, -113},
{18016073363060584ull, -112}, {14338176424082103ull, -112}, {22795465504421285ull, -112}, {28676352848164206ull, -112}, {45590931008842570ull, -112}, {91181862017685140ull, -112},
{89706955483471099ull, -112}, {12355485059794107ull, -111}, {14117877383605659ull, -111}, {18236372403537028ull, -111}, {23236063585374173ull, -111}, {36472744807074056ull, -111},
{46472127170748346ull, -111}, {72945489614148112ull, -111}, {92944254341496692ull, -111}, {10474350661520902ull, -110}, {10999320600041719ull, -110}, {21473671261562621ull, -110},
{13999135309144006ull, -110}, {35472806570706627ull, -110}, {43472312461646059ull, -110}, {70945613141413254ull, -110}, {86944624923292118ull, -110}, {10989320271906878ull, -109},
{17493918972362587ull, -109}, {21978640543813756ull, -109}, {28483239244269465ull, -109}, {69450705950929531ull, -109}, {56966478488538930ull, -109}, {87914562175255024ull, -109},
{88964502052296658ull, -109}, {13575159227073416ull, -108}, {11393295697707786ull, -108}, {20079757927529125ull, -108}, {22786591395415572ull, -108}, {42866349322944697ull, -108},
{45573182790831144ull, -108}, {85732698645889394ull, -108}, {91146365581662288ull, -108}, {11522884817996658ull, -107}, {10738736638898097ull, -107}, {16063806342023300ull, -107},
{21477473277796194ull, -107}, {27675288392667649ull, -107}, {50898252493956347ull, -107}, {98558088124140101ull, -107}, {99368690132699978ull, -107}, {12851045073618640ull, -106},
{16291513763961165ull, -106}, {21249765855858329ull, -106}, {42499531711716658ull, -106}, {80546739132054365ull, -106}, {10280836058894912ull, -105}, {13033211011168932ull, -105},
{16109347826410873ull, -105}, {59985067014264541ull, -105}, {51080418431506639ull, -105}, {64437391305643492ull, -105}, {83299114084328385ull, -105}, {10005598563667510ull, -104},
{12207498525486726ull, -104}, {20011197127335020ull, -104}, {16659822816865677ull, -104}, {36671019944200697ull, -104}, {33319645633731354ull, -104}, {69990665577932051ull, -104},
{66639291267462708ull, -104}, {10027391818913477ull, -103}, {10052378010532976ull, -103}, {16008957701868016ull, -103}, {12657583391398673ull, -103}, {34870680480552909ull, -103},
{47777568488777815ull, -103}, {69741360961105818ull, -103}, {95555136977555630ull, -103}, {85002404812495135ull, -103}, {11666060130767662ull, -102}, {14518825207584539ull, -102},
{31148196848181177ull, -102}, {17000480962499027ull, -102}, {62296393696362354ull, -102}, {88481279034714555ull, -102}, {12709722397433488ull, -101}, {10645619763782283ull, -101},
{17696255806942911ull, -101}, {18415252551067242ull, -101}, {47429681066555873ull, -101}, {94859362133111746ull, -101}, {10093467838969360ull, -100}, {16564438536088339ull, -100},
{19547069821921814ull, -100}, {33128877072176678ull, -100}, {27056970191173577ull, -100}, {78294923597023407ull, -100}, {84366830478026508ull, -100}, {84260186168690357ull, -100},
{10844116938336661ull, -99}, {13230221967003441ull, -99}, {21688233876673322ull, -99}, {26460443934006882ull, -99}, {43376467753346644ull, -99}, {57799742234683475ull, -99},
{86752935506693288ull, -99}, {81874081140023577ull, -99}, {12621034767739558ull, -98}, {11559948446936695ull, -98}, {19302128848006542ull, -98}, {23119896893873390ull, -98},
{33725403329343373ull, -98}, {46239793787746780ull, -98}, {67450806658686746ull, -98}, {92479587575493560ull, -98}, {10267458709129488ull, -97}, {10350631447574950ull, -97},
{11411717768377813ull, -97}, {18495917515098712ull, -97}, {36991835030197424ull, -97}, {73983670060394848ull, -97}, {87517560470378387ull, -97}, {96338941990583139ull, -97},
{10766748702051549ull, -96}, {21533497404103098ull, -96}, {58431699712987055ull, -96}, {82357807939768275ull, -96}, {97722512844549134ull, -96}, {10123871632298886ull, -95},
{11686339942597411ull, -95}, {16471561587953655ull, -95}, {23372679885194822ull, -95}, {32943123175907310ull, -95}, {39844241473148477ull, -95}, {65886246351814620ull, -95},
{79688482946296954ull, -95}, {10364806311825579ull, -94}, {10338548579897922ull, -94}, {13177249270362924ull, -94}, {20703354891723501ull, -94}, {26354498540725848ull, -94},
{33880604162086425ull, -94}, {52708997081451696ull, -94}, {60235102702812273ull, -94}, {90365782920182238ull, -94}, {87839575891776941ull, -94}, {12552261946243514ull, -93},
{13552241664834570ull, -93}, {33630609232438661ull, -93}, {71787384930464731ull, -93}, {13157501323783679ull, -92}, {10841793331867656ull, -92}, {19578377708308563ull, -92},
{21683586663735312ull, -92}, {39156755416617126ull, -92}, {54314216177582917ull, -92}, {78313510833234252ull, -92}, {67366467983121959ull, -92}, {10189158882537303ull, -91},
{10357601829835524ull, -91}, {17852110736669309ull, -91}, {15157460760965791ull, -91}, {35704221473338618ull, -91}, {24757178623226325ull, -91}, {76966185845382493ull, -91},
{49514357246452650ull, -91}, {93470971594200043ull, -91}, {99028714492905300ull, -91}, {17548957149639313ull, -90}, {16504785748817550ull, -90}, {27451828598929843ull, -90},
{19805742898581060ull, -90}, {47257571497510903ull, -90}, {39611485797162120ull, -90}, {86869057294673023ull, -90}, {79222971594324240ull, -90}, {10286851420159591ull, -89},
{13203828599054040ull, -89}, {23490680019213631ull, -89}, {15844594318864848ull, -89}, {39335274338078479ull, -89}, {31689188637729696ull, -89}, {92150588734294639ull, -89},
{63378377275459392ull, -89}, {10925489147755209ull, -88}, {10563062879243232ull, -88}, {21488552026998441ull, -88}, {21126125758486464ull, -88}, {28772211458835247ull, -88},
{42252251516972928ull, -88}, {71024462975808175ull, -88}, {84504503033945856ull, -88}, {91028175867161442ull, -88}, {98709395629107491ull, -88}, {14204892595161635ull, -87},
{16321018577170008ull, -87}, {28409785190323270ull, -87}, {30525911172331643ull, -87}, {56819570380646540ull, -87}, {70299610438784221ull, -87}, {86679060645017718ull, -87},
{81663524514913529ull, -87}, {11363914076129308ull, -86}, {22727828152258616ull, -86}, {19028712914610242ull, -86}, {45455656304517232ull, -86}, {38057425829220484ull, -86},
{66333926837951661ull, -86}, {76114851658440968ull, -86}, {10570777355962796ull, -85}, {10044208998980470ull, -85}, {21141554711925592ull, -85}, {17179155295786055ull, -85},
{24577385771082803ull, -85}, {38320710007711647ull, -85}, {49154771542165606ull, -85}, {76641420015423294ull, -85}, {98309543084331212ull, -85}, {11415914074888936ull, -84},
{13743324236628844ull, -84}, {30285342808527271ull, -84}, {20033133814508289ull, -84}, {68024200275803941ull, -84}, {40066267629016578ull, -84}, {80132535258033156ull, -84},
{10252208994018982ull, -83}, {12485362321052955ull, -83}, {22737571315071937ull, -83}, {17517209983356511ull, -83}, {52928657288893273ull, -83}, {35034419966713022ull, -83},
{73056047938107497ull, -83}, {87963077255606295ull, -83}, {10289911727901356ull, -82}, {15208651188557790ull, -82}, {17592615451121259ull, -82}, {32801266639679049ull, -82},
{35185230902242518ull, -82}, {93032627651792225ull, -82}, {70370461804485036ull, -82}, {99007043661155131ull, -82}, {95416591914355694ull, -82}, {18606525530358445ull, -81},
{10495244896460957ull, -81}, {37213051060716890ull, -81}, {20990489792921914ull, -81}, {74426102121433780ull, -81}, {77522354592175443ull, -81}, {14885220424286756ull, -80},
{13547879580778536ull, -80}, {29770440848573512ull, -80}, {20656154582044859ull, -80}, {59540881697147024ull, -80}, {50426595430618371ull, -80}, {75094772543187890ull, -80},
{65980486276659237ull, -80}, {10719095278738517ull, -79}, {11274400146814562ull, -79}, {15018954508637578ull, -79}, {21993495425553079ull, -79}, {30037909017275156ull, -79},
{43986990851106158ull, -79}, {97088267968740969ull, -79}, {50961531768021659ull, -79}, {99701844063739138ull, -79}, {13838020860215793ull, -78}, {13949081833831002ull, -78},
{27676041720431586ull, -78}, {27787102694046795ull, -78}, {73913838894766105ull, -78}, {55574205388093590ull, -78}, {92364533375053829ull, -78}, {92808777269514665ull, -78},
{14782767778953221ull, -77}, {11114841077618718ull, -77}, {25897608856571939ull, -77}, {22229682155237436ull, -77}, {51795217713143878ull, -77}, {44459364310474872ull, -77},
{70134851219816393ull, -77}, {88918728620949744ull, -77}, {11003780104003509ull, -76}, {10536741100413110ull, -76}, {16961311605030881ull, -76}, {21540521204416619ull, -76},
{33922623210061762ull, -76}, {28876374607085625ull, -76}, {62798997817147387ull, -76}, {57752749214171250ull, -76}, {99615035485269795ull, -76}, {99830806821303716ull, -76},
{16596798445810387ull, -75}, {11550549842834250ull, -75}, {35847714850534137ull, -75}, {23101099685668500ull, -75}, {74349547659981637ull, -75}, {46202199371337000ull, -75},
{87096162824847274ull, -75}, {92404398742674000ull, -75}, {12746615164865637ull, -74}, {15400733123779000ull, -74}, {21987055039133037ull, -74}, {18480879748534800ull, -74},
{52788521286691037ull, -74}, {36961759497069600ull, -74}, {89750280783760637ull, -74}, {73923518994139200ull, -74}, {12320586499023200ull, -73}, {20754996389230717ull, -73},
{14784703798827840ull, -73}, {35539700188058557ull, -73}, {29569407597655680ull, -73}, {65109107785714237ull, -73}, {59138815195311360ull, -73}, {10082113482705524ull, -72},
{10191841983781783ull, -72}, {17798055629465149ull, -72}, {11827763039062272ull, -72}, {37510994027902269ull, -72}, {23655526078124544ull, -72}, {76936870824776509ull, -72},
{47311052156249088ull, -72}, {92707221543526205ull, -72}, {94622104312498176ull, -72}, {13855467949777725ull, -71}, {15770350718749696ull, -71}, {18541444308705241ull, -71},
{31540701437499392ull, -71}, {37082888617410482ull, -71}, {63081402874998784ull, -71}, {74165777234820964ull, -71}, {76080660003792935ull, -71}, {11084374359822180ull, -70},
{12999257128794151ull, -70}, {24083631488616331ull, -70}, {15216132000758587ull, -70}, {48167262977232662ull, -70}, {30432264001517174ull, -70}, {89381909235579551ull, -70},
{60864528003034348ull, -70}, {10317061582221576ull, -69}, {10057601209647799ull, -69}, {10782382256829715ull, -69}, {41456239940740861ull, -69}, {21564764513659430ull, -69},
{82912479881481722ull, -69}, {54395098648936519ull, -69}, {85552143697635609ull, -69}, {97524627676255379ull, -69}, {11020402601187726ull, -68}, {28517381232545203ull, -68},
{30911878028269157ull, -68}, {43374696047748793ull, -68}, {61823756056538314ull, -68}, {86749392095497586ull, -68}, {77878319269603881ull, -68}, {11265569621617659ull, -67},
{12506134082708085ull, -67}, {13660066417341613ull, -67}, {45769192843472747ull, -67}, {42220763713115265ull, -67}, {91538385686945494ull, -67}, {65992467417441009ull, -67},
{10431827349437120ull, -66}, {10004907266166468ull, -66}, {16888305485246106ull, -66}, {38885794624393109ull, -66}, {82880772902687115ull, -66}, {99342158304662569ull, -66},
{14078947342867959ull, -65}, {16576154580537423ull, -65}, {33152309161074846ull, -65}, {66304618322149692ull, -65}, {76637754808513455ull, -65}, {91735767413092208ull, -65},
{13306831335854726ull, -64}, {12239086933649759ull, -64}, {15327550961702691ull, -64}, {24478173867299518ull, -64}, {50024092136804003ull, -64}, {29587357521200415ull, -64},
{60242459444605797ull, -64}, {98980439871403039ull, -64}, {10218367307801794ull, -63}, {10248285502543637ull, -63}, {20436734615603588ull, -63}, {11834943008480166ull, -63},
{39805724829002209ull, -63}, {23669886016960332ull, -63}, {79611449658004418ull, -63}, {47339772033920664ull, -63}, {96815032872251262ull, -63}, {94679544067841328ull, -63},
{16135838812041877ull, -62}, {15068094409836910ull, -62}, {32271677624083754ull, -62}, {25176695457944023ull, -62}, {45393897554158249ull, -62}, {69502848609897305ull, -62},
{95747288470046295ull, -62}, {10787170554359597ull, -61}, {13900569721979461ull, -61}, {19149457694009259ull, -61}, {27801139443958922ull, -61}, {46950597137968181ull, -61},
{55602278887917844ull, -61}, {93901194275936362ull, -61}, {10106611798775624ull, -60}, {10403963406401581ull, -60}, {11858893455227542ull, -60}, {23717786910455084ull, -60},
{47435573820910168ull, -60}, {91663935936542457ull, -60}, {11411441787348761ull, -59}, {14991055130379009ull, -59}, {19615671869419643ull, -59}, {36024132033561407ull, -59},
{72048264067122814ull, -59}, {11694922794101312ull, -58}, {12634286445358783ull, -58}, {16975422177646866ull, -58}, {24329209239460095ull, -58}, {33950844355293732ull, -58},
{48658418478920190ull, -58}, {68841052361844935ull, -58}, {97316836957840380ull, -58}, {11170216678497376ull, -57}, {10671047347041509ull, -57}, {13768210472368987ull, -57},
{19463367391568076ull, -57}, {27536420944737974ull, -57}, {33231577863937063ull, -57}, {55072841889475948ull, -57}, {66463155727874126ull, -57}, {94997915335523834ull, -57},
{98696394928899455ull, -57}, {11777854301232019ull, -56}, {17085470757597267ull, -56}, {31904673749845751ull, -56}, {25821976367812821ull, -56}, {63809347499691502ull, -56},
{98755369940553718ull, -56}, {74424580412421998ull, -56}, {10948855287659274ull, -55}, {13215123053008057ull, -55}, {16864741482227815ull, -55}, {26430246106016114ull, -55},
{33729482964455630ull, -55}, {43294987588243929ull, -55}, {67458965928911260ull, -55}, {86589975176487858ull, -55}, {10672185154885079ull, -54}, {10505373967420690ull, -54},
{13491793185782252ull, -54}, {21177559122305769ull, -54}, {34669352308088021ull, -54}, {42355118244611538ull, -54}, {77024470552699559ull, -54}, {84710236489223076ull, -54},
{99914957174805721ull, -54}, {12330587735930505ull, -53}, {10726710073640046ull, -53}, {24661175471861010ull, -53}, {23057297809570551ull, -53}, {49322350943722020ull, -53},
{47718473281431561ull, -53}, {98644701887444040ull, -53}, {97040824225153581ull, -53}, {11468347851034863ull, -52}, {13767654210756575ull, -52}, {19728940377488808ull, -52},
{18125062715198349ull, -52}, {39457880754977616ull, -52}, {37854003092687157ull, -52}, {78915761509955232ull, -52}, {75708006185374314ull, -52}, {11420107008034533ull, -51},
{11014123368605260ull, -51}, {16424703366907230ull, -51}, {19226475052058875ull, -51}, {47670232438431231ull, -51}, {35651178418966105ull, -51}, {56481531133315439ull, -51},
{97776366713438100ull, -51}, {98142236562014107ull, -51}, {13139762693525784ull, -50}, {14260471367586442ull, -50}, {26279525387051568ull, -50}, {28520942735172884ull, -50},
{69621293826841223ull, -50}, {57041885470345768ull, -50}, {79959284835215362ull, -50}, {88924954227700626ull, -50}, {14820825704616771ull, -49}, {29641651409233542ull, -49},
{10283098143738584ull, -48}, {11920693980868795ull, -48}, {12579408356495455ull, -48}, {19687910453308288ull, -48}, {42330845495000107ull, -48}, {32267318809803743ull, -48},
{84661690990000214ull, -48}, {64534637619607486ull, -48}, {10063526685196364ull, -47}, {17172028782009197ull, -47}, {32442975976637519ull, -47}, {27235555467205561ull, -47},
{77201874559519829ull, -47}, {42155188328166331ull, -47}, {92824136087815703ull, -47}, {84310376656332662ull, -47}, {23491196260061057ull, -46}, {24251628895013407ull, -46},
{59298315126366905ull, -46}, {36187335183782023ull, -46}, {83169727703904137ull, -46}, {72374670367564046ull, -46}, {11859663025273381ull, -45}, {12163836079254321ull, -45},
{23719326050546762ull, -45}, {24327672158508642ull, -45}, {47438652101093524ull, -45}, {36035248656791553ull, -45}, {83473900757885077ull, -45}, {72070497313583106ull, -45},
{10065042006785835ull, -44}, {11646741887486723ull, -44}, {12133418773856227ull, -44}, {23293483774973446ull, -44}, {36156917878383929ull, -44}, {59450401653357375ull, -44},
{72313835756767858ull, -44}, {93173935099893784ull, -44}, {84203916087439333ull, -44}, {11890080330671475ull, -43}, {15241450169544778ull, -43}, {23780160661342950ull, -43},
{27131530500216253ull, -43}, {47560321322685900ull, -43}, {60423755426096383ull, -43}, {95120642645371800ull, -43}, {69935819690633563ull, -43}, {11867932984386185ull, -42},
{10961021250503047ull, -42}, {19024128529074360ull, -42}, {24277911220855099ull, -42}, {38048257058148720ull, -42}, {50911691161559203ull, -42}, {76096514116297440ull, -42},
{88959948219707923ull, -42}, {10294950859222694ull, -41}, {10107263147704605ull, -41}, {15219302823259488ull, -41}, {14276955335319886ull, -41}, {30438605646518976ull, -41},
{28553910670639772ull, -41}, {75625340372327639ull, -41}, {92258164427496530ull, -41}, {84719384523979714ull, -41}, {12929320248959272ull, -40}, {12863434103410483ull, -40},
{18451632885499306ull, -40}, {36903265770998612ull, -40}, {62696020123368367ull, -40}, {73806531541997224ull, -40}, {92192278281947741ull, -40}, {11110511418628857ull, -39},
{11772148805212234ull, -39}, {17724109353367140ull, -39}, {15475652611421853ull, -39}, {33199761964788993ull, -39}, {30951305222843706ull, -39}, {66399523929577986ull, -39},
{64151067187632699ull, -39}, {10317101740947902ull, -38}, {14179287482693712ull, -38}, {11930830740748425ull, -38}, {37061947706534803ull, -38}, {23861661481496850ull, -38},
{96027554379254938ull, -38}, {86743273184840021ull, -38}, {16565453630843397ull, -37}, {11227248295501462ull, -37}, {33130907261686794ull, -37}, {19089329185197480ull, -37},
{11906295942352540ull, -36}, {12068540146952823ull, -36}, {19542027616431532ull, -36}, {15271463348157984ull, -36}, {47787427974010443ull, -36}, {10011769367682881ull, -35},
{20855645737833653ull, -35}, {13957845226755863ull, -35}, {41711291475667306ull, -35}, {26110118223442137ull, -35}, {85228155181404201ull, -35}, {52220236446884274ull, -35},
{97218183973490192ull, -35}, {10082932843362937ull, -34}, {11888505073432526ull, -34}, {27489678325657695ull, -34}, {54979356651315390ull, -34}, {62303169290247211ull, -34},
{95311088024767138ull, -34}, {10995871330263078ull, -33}, {10975566586532385ull, -33}, {21991742660526156ull, -33}, {43983485321052312ull, -33}, {51307297959984133ull, -33},
{87966970642104624ull, -33}, {95290783281036445ull, -33}, {10277703386981381ull, -32}, {10196484412058609ull, -32}, {11734344017275468ull, -32}, {19058156656207289ull, -32},
{23468688034550936ull, -32}, {38116313312414578ull, -32}, {46937376069101872ull, -32}, {76232626624829156ull, -32}, {93874752138203744ull, -32}, {90880251902692798ull, -32},
{16144875395619115ull, -31}, {14647625277863642ull, -31}, {19373850474742938ull, -31}, {24334550515235111ull, -31}, {48669101030470222ull, -31}, {79461601703952979ull, -31},
{97338202060940444ull, -31}, {12915900316495292ull, -30}, {12111340183287159ull, -30}, {25831800632990584ull, -30}, {32177880642577437ull, -30}, {98142762194148577ull, -30},
{64355761285154874ull, -30}, {10976368359762740ull, -29}, {10725960214192479ull, -29}, {16768296381711721ull, -29}, {21451920428384958ull, -29}, {33536592763423442ull, -29},
{38220216810096679ull, -29}, {76440433620193358ull, -29}, {91492938342494113ull, -29}, {99858553853559543ull, -29}, {11541187486700082ull, -28}, {12377749037806625ull, -28},
{31613061515640095ull, -28}, {24755498075613250ull, -28}, {39307186506773483ull, -28}, {56368559591253345ull, -28}, {78614373013546966ull, -28}, {99021992302453000ull, -28},
{12645224606256038ull, -27}, {11273711918250669ull, -27}, {23918936524506707ull, -27}, {22547423836501338ull, -27}, {47837873049013414ull, -27}, {45094847673002676ull, -27},
{95675746098026828ull, -27}, {90189695346005352ull, -27}, {10664784760206978ull, -26}, {10050151272535030ull, -26}, {21329569520413956ull, -26}, {15843518768392480ull, -26},
{30622841592615565ull, -26}, {43723334984997307ull, -26}, {86382474025825219ull, -26}, {62309879129400525ull, -26}, {12249136637046226ull, -25}, {12461975825880105ull, -25},
{24711112462926331ull, -25}, {24923951651760210ull, -25}, {49635064114686541ull, -25}, {49847903303520420ull, -25}, {99270128229373082ull, -25}, {99695806607040840ull, -25},
{10182419849537963ull, -24}, {19513482943740410ull, -24}, {19939161321408168ull, -24}, {59178966397722867ull, -24}, {39878322642816336ull, -24}, {99057289040539203ull, -24},
{79756645285632672ull, -24}, {11495250577410367ull, -23}, {10359463443502712ull, -23}, {15610786354992328ull, -23}, {20152000510242047ull, -23}, {31221572709984656ull, -23},
{28383072065405969ull, -23}, {50522216464891187ull, -23}, {56766144130811938ull, -23}, {99910580176255620ull, -23}, {12375243808641187ull, -22}, {11466614101515063ull, -22},
{19982116035251124ull, -22}, {20549042412014501ull, -22}, {39964232070502248ull, -22}, {38713899033013377ull, -22}, {77544278349988871ull, -22}, {77427798066026754ull, -22},
{10400328261908498ull, -21}, {10103669540825877ull, -21}, {15555447783582621ull, -21}, {15438967499620504ull, -21}, {30634058408962117ull, -21}, {30877934999241008ull, -21},
{61268116817924234ull, -21}, {61279032840278891ull, -21}, {10034693174587117ull, -20}, {10087834901584758ull, -20}, {12249256954642984ull, -20}, {12260172976997641ull, -20},
{24498513909285968ull, -20}, {24424978522354657ull, -20}, {48901660386931311ull, -20}, {48849957044709314ull, -20}, {97707953342221997ull, -20}, {97699914089418628ull, -20},
{10010821763884436ull, -19}, {10016338880646814ull, -19}, {19544806369565747ull, -19}, {19536767116762378ull, -19}, {39070539252803369ull, -19}, {39073534233524756ull, -19},
{78141078505606738ull, -19}, {78127994980721387ull, -19}, {10002546088740869ull, -18}, {10001726372196631ull, -18}, {15625819716544238ull, -18}, {15627994980721387ull, -18},
{31251639433088476ull, -18}, {31252175264177149ull, -18}, {62503278866176952ull, -18}, {62500535831088673ull, -18}, {10000723905744726ull, -17}, {10000496797380274ull, -17},
{12500227108364452ull, -17}, {12500535831088673ull, -17}, {25000454216728904ull, -17}, {25000308722724221ull, -17}, {50000145494004683ull, -17}, {50000617445448442ull, -17},
{10000145494004683ull, -16}, {10000007093885942ull, -16}, {20000138400118741ull, -16}, {20000014187771884ull, -16}, {40000124212346857ull, -16}, {40000028375543768ull, -16},
{80000095836803089ull, -16}, {80000056751087536ull, -16}, {10000002142034357ull, -15}, {10000028375543768ull, -15}, {16000004284068714ull, -15}, {16000026233509411ull, -15},
{32000008568137428ull, -15}, {32000021949440697ull, -15}, {64000017136274856ull, -15}, {64000013381303269ull, -15}, {10000002464621803ull, -14}, {10000003638893822ull, -14},
{12800004929243606ull, -14}, {12800001174272019ull, -14}, {25600003754971587ull, -14}, {25600002348544038ull, -14}, {51200001406427549ull, -14}, {51200004697088076ull, -14},
{10000000092862212ull, -13}, {10000001127840913ull, -13}, {10240000185724424ull, -13}, {10240001034978701ull, -13}, {20480000371448848ull, -13}, {20480000849254277ull, -13},
{40960000742897696ull, -13}, {40960000477805429ull, -13}, {81920000265092267ull, -13}, {81920000955610858ull, -13}, {10000000010475821ull, -12}, {10000000233664804ull, -12},
{16384000020951642ull, -12}, {16384000223188983ull, -12}, {32768000041903284ull, -12}, {32768000202237341ull, -12}, {65536000083806568ull, -12}, {65536000160334057ull, -12},
{10000000041903284ull, -11}, {10000000006924841ull, -11}, {13107200034978443ull, -11}, {13107200013849682ull, -11}, {26214400021128761ull, -11}, {26214400027699364ull, -11},
{52428800042257522ull, -11}, {52428800006570603ull, -11}, {10000000001597511ull, -10}, {10000000008168114ull, -10}, {10485760003195022ull, -10}, {10485760006570603ull, -10},
{20971520006390044ull, -10}, {20971520003375581ull, -10}, {41943040003014463ull, -10}, {41943040006751162ull, -10}, {83886080006028926ull, -10}, {83886080003736699ull, -10},
{10000000001061338ull, -9}, {10000000000891787ull, -9}, {16777216000169551ull, -9}, {16777216001783574ull, -9}, {33554432000339102ull, -9}, {33554432001614023ull, -9},
{67108864000678204ull, -9}, {67108864001274921ull, -9}, {10000000000339102ull, -8}, {10000000000051523ull, -8}, {13421772800287579ull, -8}, {13421772800103046ull, -8},
{26843545600184533ull, -8}, {26843545600206092ull, -8}, {53687091200369066ull, -8}, {53687091200021559ull, -8}, {10000000000028283ull, -7}, {10000000000049842ull, -7},
{10737418240056566ull, -7}, {10737418240021559ull, -7}, {21474836480035007ull, -7}, {21474836480043118ull, -7}, {42949672960070014ull, -7}, {42949672960008111ull, -7},
{85899345920061903ull, -7}, {85899345920016222ull, -7}, {10000000000007514ull, -6}, {10000000000008111ull, -6}, {17179869184015028ull, -6}, {17179869184000597ull, -6},
{34359738368014431ull, -6}, {34359738368001194ull, -6}, {68719476736013237ull, -6}, {68719476736002388ull, -6}, {10000000000001931ull, -5}, {10000000000001194ull, -5},
{13743895347200737ull, -5}, {13743895347202388ull, -5}, {27487790694401474ull, -5}, {27487790694401651ull, -5}, {54975581388802948ull, -5}, {54975581388800177ull, -5},
{10000000000000224ull, -4}, {10000000000000401ull, -4}, {10995116277760448ull, -4}, {10995116277760177ull, -4}, {21990232555520271ull, -4}, {21990232555520354ull, -4},
{43980465111040542ull, -4}, {43980465111040083ull, -4}, {87960930222080459ull, -4}, {87960930222080166ull, -4}, {10000000000000042ull, -3}, {10000000000000083ull, -3},
{17592186044416084ull, -3}, {17592186044416041ull, -3}, {35184372088832043ull, -3}, {35184372088832082ull, -3}, {70368744177664086ull, -3}, {70368744177664039ull, -3},
{10000000000000018ull, -2}, {10000000000000007ull, -2}, {14073748835532811ull, -2}, {14073748835532814ull, -2}, {28147497671065622ull, -2}, {28147497671065603ull, -2},
{56294995342131219ull, -2}, {56294995342131206ull, -2}, {10000000000000002ull, -1}, {10000000000000003ull, -1}, {11258999068426244ull, -1}, {11258999068426241ull, -1},
{22517998136852483ull, -1}, {22517998136852482ull, -1}, {45035996273704966ull, -1}, {45035996273704964ull, -1}, {90071992547409931ull, -1}, {90071992547409929ull, -1},
{10000000000000000ull, 0}, {18014398509481987ull, 0}, {18014398509481985ull, 0}, {36028797018963973ull, 0}, {36028797018963971ull, 0}, {72057594037927945ull, 0},
{72057594037927943ull, 0}, {10000000000000001ull, 1}, {10000000000000007ull, 1}, {14411518807585589ull, 1}, {14411518807585595ull, 1}, {28823037615171197ull, 1},
{28823037615171203ull, 1}, {57646075230342381ull, 1}, {57646075230342355ull, 1}, {10000000000000025ull, 2}, {10000000000000007ull, 2}, {11529215046068489ull, 2},
{11529215046068471ull, 2}, {23058430092137065ull, 2}, {23058430092136983ull, 2}, {46116860184274089ull, 2}, {46116860184274007ull, 2}, {92233720368548137ull, 2},
{92233720368548055ull, 2}, {10000000000000085ull, 3}, {10000000000000171ull, 3}, {18446744073710037ull, 3}, {18446744073709611ull, 3}, {36893488147419861ull, 3},
{36893488147419435ull, 3}, {73786976294839509ull, 3}, {73786976294839083ull, 3}, {10000000000000145ull, 4}, {10000000000000879ull, 4}, {14757395258968721ull, 4},
{14757395258969455ull, 4}, {29514790517937809ull, 4}, {29514790517938543ull, 4}, {59029581035875985ull, 4}, {59029581035876719ull, 4}, {10000000000003613ull, 5},
{10000000000000483ull, 5}, {11805916207175197ull, 5}, {11805916207180259ull, 5}, {23611832414357021ull, 5}, {23611832414353891ull, 5}, {47223664828720669ull, 5},
{47223664828701155ull, 5}, {94447329657447965ull, 5}, {94447329657395683ull, 5}, {10000000000008505ull, 6}, {10000000000024263ull, 6}, {18889465931489593ull, 6},
{18889465931505351ull, 6}, {37778931863085369ull, 6}, {37778931863035591ull, 6}, {75557863726014777ull, 6}, {75557863725964999ull, 6}, {10000000000083621ull, 7},
{10000000000047451ull, 7}, {15111572745307813ull, 7}, {15111572745402715ull, 7}, {30223145490794149ull, 7}, {30223145490626907ull, 7}, {60446290981766821ull, 7},
{60446290981075291ull, 7}, {10000000000265761ull, 8}, {10000000000127455ull, 8}, {12089258197192225ull, 8}, {12089258197053919ull, 8}, {24178516393791009ull, 8},
{24178516392604127ull, 8}, {48357032784891425ull, 8}, {48357032787898847ull, 8}, {96714065571286561ull, 8}, {96714065574293983ull, 8}, {10000000000892013ull, 9},
{10000000003171219ull, 9}, {19342813119290477ull, 9}, {19342813121569683ull, 9}, {38685626235526253ull, 9}, {38685626229416851ull, 9}, {77371252467997805ull, 9},
{77371252461888403ull, 9}, {10000000009772873ull, 10}, {10000000015261879ull, 10}, {15474250493599561ull, 10}, {15474250499088567ull, 10}, {30948501006720841ull, 10},
{30948501045764279ull, 10}, {61897002032963401ull, 10}, {61897002072006839ull, 10}, {10000000047200629ull, 11}, {10000000028165771ull, 11}, {12379400487123317ull, 11},
{12379400468088459ull, 11}, {24758801031838069ull, 11}, {24758800878585483ull, 11}, {49517601852832117ull, 11}, {49517601968014987ull, 11}, {99035203494820213ull, 11},
{99035204146873995ull, 11}, {10000000261045937ull, 12}, {10000000284082511ull, 12}, {19807041343209137ull, 12}, {19807040829374799ull, 12}, {39614081355759281ull, 12},
{39614082989408591ull, 12}, {79228163528343217ull, 12}, {79228165161992527ull, 12}, {10000001182941117ull, 13}, {10000001509670979ull, 13}, {15845635282649021ull, 13},
{15845635609378883ull, 13}, {31691270728662973ull, 13}, {31691271055392835ull, 13}, {63382533030756285ull, 13}, {63382533357486147ull, 13}, {10000007541335641ull, 14},
{10000005888694695ull, 14}, {12676506606151257ull, 14}, {12676513543444903ull, 14}, {25353025270883929ull, 14}, {25353015028308391ull, 14}, {50706028240610905ull, 14},
{50706052357773735ull, 14}, {10000004303298885ull, 15}, {10000009126731451ull, 15}, {10141205648122181ull, 15}, {10141210471554747ull, 15}, {20282516787175749ull, 15},
{20282452891131579ull, 15}, {40565001626329413ull, 15}, {40564937730285243ull, 15}, {81129696426729797ull, 15}, {81130182286499515ull, 15}, {10000202083180609ull, 16},
{10000189303971775ull, 16}, {16226049236508737ull, 16}, {16226036457299903ull, 16}, {32452916717133889ull, 16}, {32452354182111167ull, 16}, {64904452655128641ull, 16},
{64903890120105919ull, 16}, {10000444361613325ull, 17}, {10000771659259891ull, 17}, {12981770140327949ull, 17}, {12982097437974515ull, 17}, {25961504906223629ull, 17},
{25961832203870195ull, 17}, {51929770531037197ull, 17}, {51925699782172659ull, 17}, {10002884255090281ull, 18}, {10003829323921815ull, 18}, {10387713324811881ull, 18},
{10388658393643415ull, 18}, {20780297230550633ull, 18}, {20772446206359959ull, 18}, {41565465042028137ull, 18}, {41540021831793047ull, 18}, {83135800664983145ull, 18},
{83145541826836887ull, 18}, {10030090366340629ull, 19}, {10025001724293611ull, 19}, {16627160132996629ull, 19}, {16657255863038443ull, 19}, {33269368131014165ull, 19},
{33299463861055979ull, 19}, {66694521615404565ull, 19}, {66724617345446379ull, 19}, {10031573346730705ull, 20}, {10093887488081199ull, 20}, {13338904323080913ull, 20},
{13401218464431407ull, 20}, {26708965716837073ull, 20}, {26771279858187567ull, 20}, {54012038457770705ull, 20}, {54074352599121199ull, 20}, {10520932714843485ull, 21},
{10308215561745059ull, 21}, {10802407691554141ull, 21}, {11715590445298339ull, 21}, {21498456806559069ull, 21}, {21285739653460643ull, 21}, {45142354850254173ull, 21},
{44929637697155747ull, 21}, {87926551310273885ull, 21}, {92217433784545955ull, 21}, {10829910820999033ull, 22}, {11688087315853447ull, 22}, {17585310262054777ull, 22},
{18443486756909191ull, 22}, {40103308398907257ull, 22}, {49968684148502663ull, 22}, {76990281912725639ull, 22}, {10293733208776542ull, 23}, {18657665486499759ull, 23},
{17371131532464209ull, 23}, {47823973699612699ull, 23}, {95647947399225398ull, 23}, {10637296122016736ull, 24}, {12309790262262951ull, 24}, {11795176680648731ull, 24},
{24619580524525902ull, 24}, {35642836832753303ull, 24}, {60262417357279205ull, 24}, {71285673665506606ull, 24}, {98478322098103608ull, 24}, {94361413445189848ull, 24},
{12052483471455841ull, 25}, {11640792606164465ull, 25}, {24104966942911682ull, 25}, {23281585212328930ull, 25}, {48209933885823364ull, 25}, {35951604981721835ull, 25},
{84161538867545199ull, 25}, {71903209963443670ull, 25}, {13081710634684281ull, 26}, {11434947173518777ull, 26}, {26638970896790263ull, 26}, {14380641992688734ull, 26},
{41019612889478997ull, 26}, {28761283985377468ull, 26}, {69780896874856465ull, 26}, {57522567970754936ull, 26}, {10084928805810064ull, 27}, {11036028060653466ull, 27},
{13956179374971293ull, 27}, {17351880316710821ull, 27}, {27912358749942586ull, 27}, {34703760633421642ull, 27}, {55824717499885172ull, 27}, {74874448287465757ull, 27},
{89950754486476593ull, 27}, {95248653937902925ull, 27}, {16068275061617646ull, 28}, {32136550123235292ull, 28}, {19049730787580585ull, 28}, {35946496280751409ull, 28},
{51186280910815877ull, 28}, {71892992561502818ull, 28}, {89285742485977047ull, 28}, {11132247813766308ull, 29}, {13285213108176069ull, 29}, {16995962379431505ull, 29},
{26570426216352138ull, 29}, {33991924758863010ull, 29}, {54897030182071313ull, 29}, {66227671768358983ull, 29}, {64471494018991946ull, 29}, {11330641586287670ull, 30},
{10594364972701627ull, 30}, {13596769903545204ull, 30}, {20905105423208303ull, 30}, {27193539807090408ull, 30}, {43566388595783643ull, 30}, {88888954940934323ull, 30},
{52630901864813779ull, 30}, {98237092732159410ull, 30}, {18129026538060272ull, 31}, {16372848788693235ull, 31}, {36258053076120544ull, 31}, {27952735811276213ull, 31},
{51112509856442169ull, 31}, {55905471622552426ull, 31}, {73796712419617271ull, 31}, {10668851817560012ull, 32}, {13098279030954588ull, 32}, {21403596295798919ull, 32},
{16676527190367557ull, 32}, {42807192591597838ull, 32}, {47600154357708095ull, 32}, {85614385183195676ull, 32}, {90407346949305933ull, 32}, {14247099976972981ull, 33},
{19040061743083238ull, 33}, {42820371123733617ull, 33}, {61834075802545297ull, 33}, {85640742247467234ull, 33}, {95015809265515284ull, 33}, {95437522293860212ull, 33},
{10470716105482203ull, 34}, {20941432210964406ull, 34}, {69439557674069969ull, 34}, {41882864421928812ull, 34}, {94131016692253595ull, 34}, {83765728843857624ull, 34},
{11595724147647969ull, 35}, {12960947658717812ull, 35}, {18826203338450719ull, 35}, {37652406676901438ull, 35}, {53478588569576781ull, 35}, {91130995246478219ull, 35},
{73670015419097343ull, 35}, {11676596474738676ull, 36}, {10041798540033143ull, 36}, {21718395014771819ull, 36}, {14407043496878362ull, 36}, {33287161720056219ull, 36},
{38963715303244143ull, 36}, {56424695130625019ull, 36}, {97885846524208903ull, 36}, {97364049069828916ull, 36}, {11044243254747318ull, 37}, {17615411783195141ull, 37},
{28659655037942459ull, 37}, {35230823566390282ull, 37}, {57319310075884918ull, 37}, {63890478604332741ull, 37}, {80611275442267983ull, 37}, {10149628309487419ull, 38},
{13975179219829839ull, 38}, {20299256618974838ull, 38}, {26870425147422661ull, 38}, {41678446530186693ull, 38}, {71294489295714757ull, 38}, {10532183400521661ull, 39},
{11612116692758678ull, 39}, {21064366801043322ull, 39}, {19083859365006403ull, 39}, {40148226166049725ull, 39}, {38167718730012806ull, 39}, {54191137366745273ull, 39},
{76335437460025612ull, 39}, {98121019256431721ull, 39}, {99555892443928641ull, 39}, {16059290466419890ull, 40}, {10046024498934287ull, 40}, {32118580932839780ull, 40},
{20092048997868574ull, 40}, {78315944896062531ull, 40}, {40184097995737148ull, 40}, {90342476831033737ull, 40}, {80368195991474296ull, 40}, {12847432373135912ull, 41},
{13668332811300618ull, 41}, {25694864746271824ull, 41}, {27336665622601236ull, 41}, {51389729492543648ull, 41}, {89521576392869031ull, 41}, {11616081715888853ull, 42},
{12248106950104024ull, 42}, {50379953850429407ull, 42}, {10031200073736752ull, 43}, {13257882592218265ull, 43}, {26515765184436530ull, 43}, {75329468240116339ull, 43},
{53031530368873060ull, 43}, {10823371218513423ull, 44}, {10606306073774612ull, 44}, {21429677292288035ull, 44}, {21212612147549224ull, 44}, {42859354584576070ull, 44},
{42642289439837259ull, 44}, {85501644024413329ull, 44}, {85284578879674518ull, 44}, {10091326930086891ull, 45}, {17143741833830428ull, 45}, {16926676689091617ull, 45},
{34287483667660856ull, 45}, {33853353378183234ull, 45}, {68574967335321712ull, 45}, {67706706756366468ull, 45}, {10070060875666574ull, 46}, {10240189311029110ull, 46},
{14062297698646440ull, 46}, {13194037119691196ull, 46}, {34938679101877289ull, 46}, {47698585932090863ull, 46}, {85242046770833884ull, 46}, {95397171864181726ull, 46},
{11249838158917152ull, 47}, {16006496659420484ull, 47}, {31692089272670379ull, 47}, {22820580364004893ull, 47}, {45320256681839197ull, 47}, {63705082591511347ull, 47},
{90640513363678394ull, 47}, {90961417409848983ull, 47}, {12548474090599916ull, 48}, {12869378136770505ull, 48}, {25417852227370421ull, 48}, {18384825909672150ull, 48},
{50835704454740842ull, 48}, {36448747773173711ull, 48}, {57868730772439113ull, 48}, {87284452227914553ull, 48}, {10295502509416404ull, 49}, {17328528827114675ull, 49},
{14707860727737720ull, 49}, {34657057654229350ull, 49}, {32036389554852395ull, 49}, {78459735791271921ull, 49}, {95467360572216007ull, 49}, {99371644856275318ull, 49},
{13862823061691740ull, 50}, {12814555821940958ull, 50}, {27725646123383480ull, 50}, {25629111643881916ull, 50}, {38967801085698265ull, 50}, {94419093332465225ull, 50},
{77935602171396530ull, 50}, {11090258449353392ull, 51}, {10193887722564003ull, 51}, {18883818666493045ull, 51}, {15587120434279306ull, 51}, {34470939100772351ull, 51},
{31174240868558612ull, 51}, {68941878201544702ull, 51}, {62348481737117224ull, 51}, {10306399922345736ull, 52}, {10017615247401919ull, 52}, {15107054933194436ull, 52},
{20324015169747655ull, 52}, {42024466567369569ull, 52}, {28837673638514613ull, 52}, {84048933134739138ull, 52}, {59051783504903485ull, 52}, {95859289835719835ull, 52},
{93106417379971317ull, 52}, {13186792928854956ull, 53}, {11810356700980697ull, 53}, {19171857967143967ull, 53}, {23620713401961394ull, 53}, {38343715934287934ull, 53},
{47241426803922788ull, 53}, {76687431868575868ull, 53}, {94482853607845576ull, 53}, {10210237747270183ull, 54}, {13346566304452281ull, 54}, {22116458473609275ull, 54},
{19235767317382897ull, 54}, {44232916947218550ull, 54}, {31014169343244129ull, 54}, {88465833894437100ull, 54}, {95923199185958765ull, 54}, {10133546526983467ull, 55},
{10338056447748043ull, 55}, {17693166778887420ull, 55}, {19184639837191753ull, 55}, {35386333557774840ull, 55}, {38369279674383506ull, 55}, {70772667115549680ull, 55},
{76738559348767012ull, 55}, {92735743148585523ull, 55}, {91653289931810342ull, 55}, {14154533423109936ull, 56}, {11551685886467967ull, 56}, {28309066846219872ull, 56},
{25706219309577903ull, 56}, {56618133692439744ull, 56}, {54015286155797775ull, 56}, {13405904767801524ull, 57}, {10803057231159555ull, 57}, {24208961998961079ull, 57},
{21606114462319110ull, 57}, {45815076461280189ull, 57}, {43212228924638220ull, 57}, {91630152922560378ull, 57}, {58483921078398283ull, 57}, {11245293321569613ull, 58},
{10065997080476125ull, 58}, {17284891569855288ull, 58}, {33146231844162095ull, 58}, {34569783139710576ull, 58}, {54457522246207833ull, 58}, {69139566279421152ull, 58},
{94233000459202347ull, 58}, {99927205641396271ull, 58}, {13258492737664838ull, 59}, {11460924967460959ull, 59}, {24719417705125797ull, 59}, {22921849934921918ull, 59},
{49438835410251594ull, 59}, {64120879443464913ull, 59}, {98877670820503188ull, 59}, {77005355706474353ull, 59}, {11325821298213422ull, 60}, {12105148780611431ull, 60},
{18277179573621077ull, 60}, {28584760584028629ull, 60}, {57169521168057258ull, 60}, {89349417292493645ull, 60}, {80600491246882111ull, 60}, {11564734103621283ull, 61},
{10307581010407552ull, 61}, {17869883458498729ull, 61}, {35739766916997458ull, 61}, {33738551089232405ull, 61}, {71479533833994916ull, 61}, {55982897570536901ull, 61},
{96982249236278196ull, 61}, {95956068518953378ull, 61}, {16594747688384565ull, 62}, {21695290768841221ull, 62}, {33189495376769130ull, 62}, {54884786145610351ull, 62},
{42487477134843939ull, 62}, {98275367683292793ull, 62}, {84974954269687878ull, 62}, {11518819870825172ull, 63}, {13275798150707652ull, 63}, {29211678984136287ull, 63},
{26551596301415304ull, 63}, {58423357968272574ull, 63}, {55763275285551591ull, 63}, {80557893307084415ull, 63}, {75237727941642449ull, 63}, {11343122042836924ull, 64},
{10088621984021925ull, 64}, {16111578661416883ull, 64}, {20177243968043850ull, 64}, {32223157322833766ull, 64}, {36288822629460733ull, 64}, {87283641296432365ull, 64},
{49740318608156633ull, 64}, {96367306838319328ull, 64}, {99480637216313266ull, 64}, {17456728259286473ull, 65}, {16141795174435080ull, 65}, {34913456518572946ull, 65},
{33598523433721553ull, 65}, {69826913037145892ull, 65}, {44359720216678273ull, 65}, {93979172772762118ull, 65}, {88719440433356546ull, 65}, {12553756680919555ull, 66},
{12913436139548064ull, 66}, {19847781022433538ull, 66}, {25826872279096128ull, 66}, {34076150246832995ull, 66}, {57273156356226337ull, 66}, {96968718401093413ull, 66},
{85729894805025251ull, 66}, {10043005344735644ull, 67}, {11598503054696671ull, 67}, {21641508399432315ull, 67}, {18413733104063270ull, 67}, {43283016798864630ull, 67},
{56077338104893819ull, 67}, {99710694530099422ull, 67}, {97688077318350431ull, 67}, {17313206719545852ull, 68}, {14730986483250616ull, 68}, {25324255020244969ull, 68},
{38764131385347967ull, 68}, {50648510040489938ull, 68}, {73390544824439671ull, 68}, {78554985297030143ull, 68}, {86830421189542669ull, 68}, {13023021786385429ull, 69},
{13439876365102998ull, 69}, {18604316837693470ull, 69}, {26462898151488427ull, 69}, {52508941724259285ull, 69}, {37625488254104509ull, 69}, {89717575399646225ull, 69},
{75250976508209018ull, 69}, {10501788344851857ull, 70}, {10918642923569426ull, 70}, {21003576689703714ull, 70}, {24063638299478183ull, 70}, {45067214989181897ull, 70},
{48127276598956366ull, 70}, {90134429978363794ull, 70}, {96254553197912732ull, 70}, {99645694412874618ull, 70}, {99864164847619367ull, 70}, {14354812063943396ull, 71},
{15300308048872345ull, 71}, {28709624127886792ull, 71}, {23534996893266803ull, 71}, {40004374582055719ull, 71}, {64484867460251471ull, 71}, {80008749164111438ull, 71},
{94139987573067212ull, 71}, {12140576704107135ull, 72}, {15723221173841449ull, 72}, {11722510416139259ull, 73}, {11185387045175730ull, 73}, {10022556378067642ull, 74},
{10172035342229589ull, 74}, {17896619272281168ull, 74}, {87074368368589325ull, 74}, {12849907513174935ull, 75}, {15013890364773649ull, 75}, {17414873673717865ull, 75},
{34829747347435730ull, 75}, {69659494694871460ull, 75}, {82272401750700893ull, 75}, {10279926010539948ull, 76}, {12274910668447891ull, 76}, {13931898938974292ull, 76},
{24549821336895782ull, 76}, {27863797877948584ull, 76}, {55727595755897168ull, 76}, {85586378291753695ull, 76}, {10360722754568780ull, 77}, {12998706520858498ull, 77},
{17117275658350739ull, 77}, {38610320097546429ull, 77}, {34234551316701478ull, 77}, {72844871414247907ull, 77}, {68469102633402956ull, 77}, {86486577043488180ull, 77},
{13024426485193769ull, 78}, {12818666770511601ull, 78}, {30013102321868153ull, 78}, {25637333541023202ull, 78}, {60026204643736306ull, 78}, {38558880168875887ull, 78},
{98585084812612193ull, 78}, {77117760337751774ull, 78}, {13127306342534853ull, 79}, {10660415048087107ull, 80}, {10160553935163394ull, 80}, {34506289133835895ull, 80},
{36091988874428141ull, 80}, {69012578267671790ull, 80}, {52948708506198027ull, 80}, {86662147769737799ull, 80}, {93004946732106783ull, 80}, {13802515653534358ull, 81},
{31452085155600367ull, 81}, {66751224159732385ull, 81}, {95031909834148260ull, 81}, {13350244831946477ull, 82}, {13579132107775080ull, 82}, {26700489663892954ull, 82},
{19235269242658255ull, 82}, {53400979327785908ull, 82}, {38241651209487907ull, 82}, {76254415143147211ull, 82}, {76483302418975814ull, 82}, {10634418410391461ull, 83},
{10863305686220064ull, 83}, {21268836820782922ull, 83}, {15388215394126604ull, 83}, {54985578322364289ull, 83}, {96836590136444324ull, 83}, {92100405088931021ull, 83},
{17198179277289220ull, 84}, {25568381640105227ull, 84}, {23307687979774141ull, 84}, {62225433855014753ull, 84}, {35526705384743983ull, 84}, {86663468664954437ull, 84},
{71053410769487966ull, 84}, {13349364235135385ull, 85}, {13758543421831376ull, 85}, {16019237082162462ull, 85}, {21768161962912607ull, 85}, {48466890433183377ull, 85},
{43536323925825214ull, 85}, {92003214359008591ull, 85}, {87072647851650428ull, 85}, {10679491388108308ull, 86}, {10348064785350261ull, 86}, {11829276364258337ull, 86},
{16428416268858453ull, 86}, {37787399045075069ull, 86}, {32856832537716906ull, 86}, {75574798090150138ull, 86}, {70644231582791975ull, 86}, {89703644406708533ull, 86},
{13407874297293200ull, 87}, {14128846316558395ull, 87}, {33188259140474953ull, 87}, {28257692633116790ull, 87}, {50142874720345027ull, 87}, {56515385266233580ull, 87},
{74190972865368849ull, 87}, {10726299437834560ull, 88}, {11303077053246716ull, 88}, {27825109421557673ull, 88}, {22606154106493432ull, 88}, {38839797667098311ull, 88},
{45212308212986864ull, 88}, {90424616425973728ull, 88}, {11239807936434533ull, 89}, {19820847486702181ull, 89}, {97500442820898803ull, 89}, {98049263659956122ull, 89},
{12384829586346874ull, 90}, {17873928530483789ull, 90}, {23534589646423849ull, 90}, {47069179292847698ull, 90}, {94138358585695396ull, 90}, {92903289059425497ull, 90},
{12350517151986245ull, 91}, {14546156729641011ull, 91}, {19074685622393059ull, 91}, {29092313459282022ull, 91}, {32523022563206687ull, 91}, {65046045126413374ull, 91},
{90707649481770731ull, 91}, {10017627836888963ull, 92}, {22642608841617691ull, 92}, {31150738921636821ull, 92}, {36914301718516219ull, 92}, {62301477843273642ull, 92},
{48166999081675081ull, 92}, {98941351331189927ull, 92}, {96333998163350162ull, 92}, {22510871891844107ull, 94}, {21467930624708201ull, 94}, {45021743783688214ull, 94},
{32984101887414231ull, 94}, {78005845671102445ull, 94}, {65968203774828462ull, 94}, {10255878277300730ull, 95}, {10994700629138077ull, 95}, {15601169134220489ull, 95},
{21989401258276154ull, 95}, {37590570392496643ull, 95}, {43978802516552308ull, 95}, {75181140784993286ull, 95}, {87957605033104616ull, 95}, {99256424577541252ull, 95},
{97301126564509669ull, 95}, {11498817823300197ull, 96}, {22997635646600394ull, 96}, {73903494360182153ull, 96}, {86479960329429922ull, 96}, {89235251457915749ull, 96},
{10692230312640805ull, 97}, {15331757097733596ull, 97}, {21384460625281610ull, 97}, {26023987410374401ull, 97}, {42768921250563220ull, 97}, {52047974820748802ull, 97},
{79014080059426685ull, 97}, {72490317617726930ull, 97}, {11163289226792546ull, 98}, {11309075378598471ull, 98}, {15802816011885337ull, 98}, {14498063523545386ull, 98},
{31605632023770674ull, 98}, {30300879535430723ull, 98}, {63211264047541348ull, 98}, {61906511559201397ull, 98}, {13164153804844250ull, 99}, {11859401316504299ull, 99},
{26328307609688500ull, 99}, {23718802633008598ull, 99}, {77680170340725549ull, 99}, {47437605266017196ull, 99}, {85508685270765255ull, 99}, {94875210532034392ull, 99},
{10531323043875400ull, 100}, {14492232077473149ull, 100}, {21062646087750800ull, 100}, {25023555121348549ull, 100}, {46086201209099349ull, 100}, {50047110242697098ull, 100},
{96133311451796447ull, 100}, {10438019906719608ull, 101}, {12385967468698069ull, 101}, {16850116870200640ull, 101}, {20811025903798389ull, 101}, {33700233740401280ull, 101},
{41622051807596778ull, 101}, {67400467480802560ull, 101}, {83244103615193556ull, 101}, {10064807358096440ull, 102}, {13480093496160512ull, 102}, {10700955781678005ull, 102},
{26960186992321024ull, 102}, {24181049277838517ull, 102}, {51141236270159541ull, 102}, {48362098555677034ull, 102}, {96724197111354068ull, 102}, {11339902339824911ull, 103},
{22679804679649822ull, 103}, {17121529250684808ull, 103}, {59702000895501945ull, 103}, {34243058501369616ull, 103}, {90719218718599288ull, 103}, {68486117002739232ull, 103},
{11940400179100389ull, 104}, {10362258143168838ull, 104}, {23880800358200778ull, 104}, {22302658322269227ull, 104}, {47761600716401556ull, 104}, {46183458680470005ull, 104},
{95523201432803112ull, 104}, {93945059396871561ull, 104}, {10072286387398258ull, 105}, {10257465546357979ull, 105}, {20051525508119553ull, 105}, {18473383472188002ull, 105},
{40103051016239106ull, 105}, {25157225308227853ull, 105}, {50314450616455706ull, 105}, {88839359596763261ull, 105}, {88003764945459004ull, 105}, {11325403752036382ull, 106},
{15874101476234791ull, 106}, {22650807504072764ull, 106}, {27199505228271173ull, 106}, {42609468820394195ull, 106}, {73429396004640239ull, 106}, {12495089803959269ull, 107},
{11083993468337033ull, 107}, {15762737676028581ull, 107}, {17043787528157678ull, 107}, {32806525204186259ull, 107}, {34087575056315356ull, 107}, {90473183532797917ull, 107},
{10508491784019054ull, 108}, {10556627380855851ull, 108}, {12097770199971226ull, 108}, {19119476588262861ull, 108}, {22298033420167205ull, 108}, {44596066840334410ull, 108},
{78375413332826691ull, 108}, {89192133680668820ull, 108}, {87294626700893573ull, 108}, {16434085458475437ull, 109}, {11727895923383536ull, 109}, {17838426736133764ull, 109},
{30970663937175627ull, 109}, {35676853472267528ull, 109}, {71353706944535056ull, 109}, {90103309256210227ull, 109}, {13132237201041863ull, 110}, {16532718598898821ull, 110},
{51815039509472813ull, 110}, {60832886017963079ull, 110}, {10077444184016707ull, 111}, {10791353478711346ull, 111}, {16976095341454091ull, 111}, {15916497665927650ull, 111},
{33952190682908182ull, 111}, {32892593007381741ull, 111}, {66844783690289923ull, 111}, {65785186014763482ull, 111}, {13792795808268561ull, 112}, {12733198132742120ull, 112},
{26525993941010681ull, 112}, {25466396265484240ull, 112}, {53051987882021362ull, 112}, {71442382293046110ull, 112}, {86653983677491535ull, 112}, {12305753857246578ull, 113},
{10186558506193696ull, 113}, {14288476458609222ull, 113}, {17330796735498307ull, 113}, {28576952917218444ull, 113}, {34661593470996614ull, 113}, {88773179028544417ull, 113},
{69323186941993228ull, 113}, {10323031255883934ull, 114}, {10343888941422889ull, 114}, {20666920197306823ull, 114}, {26751560751084993ull, 114}, {31619273194107529ull, 114},
{87556250917788783ull, 114}, {63238546388215058ull, 114}, {92423963360811319ull, 114}, {14586451180636444ull, 115}, {14594794254852026ull, 115}, {24317704529573725ull, 115},
{29189588509704052ull, 115}, {53507293039277777ull, 115}, {58379177019408104ull, 115}, {97270818118294900ull, 115}, {72978142811367921ull, 115}, {13617914536561286ull, 116},
{10708133067228021ull, 116}, {19454163623658980ull, 116}, {24326047603789307ull, 116}, {38908327247317960ull, 116}, {43780211227448287ull, 116}, {82688538474766247ull, 116},
{87560422454896574ull, 116}, {10109490624930204ull, 117}, {10325724254127307ull, 117}, {15563330898927184ull, 117}, {13235505723460572ull, 117}, {31126661797854368ull, 117},
{35998545777984695ull, 117}, {81524625887032941ull, 117}, {71997091555969390ull, 117}, {95924044198226819ull, 117}, {96356511456621025ull, 117}, {10545157852929037ull, 118},
{14399418311193878ull, 118}, {21090315705858074ull, 118}, {28798836622387756ull, 118}, {42180631411716148ull, 118}, {57597673244775512ull, 118}, {84361262823432296ull, 118},
{82542249408898427ull, 118}, {12247140014768650ull, 119}, {10428126600234781ull, 119}, {17236055247593233ull, 119}, {22675266615003431ull, 119}, {34472110495186466ull, 119},
{52608758011950929ull, 119}, {11256488518680297ull, 120}, {10518185827151904ull, 120}, {12337199241685773ull, 120}, {22495148161169185ull, 120}, {24674398483371546ull, 120},
{44990296322338370ull, 120}, {52248521104282437ull, 120}, {89980592644676740ull, 120}, {98697593933486184ull, 120}, {95762212043564021ull, 120}, {17416173701427479ull, 121},
{17996118528935348ull, 121}, {34832347402854958ull, 121}, {35992237057870696ull, 121}, {69664694805709916ull, 121}, {71984474115741392ull, 121}, {96957759450962577ull, 121},
{77783922390820082ull, 121}, {13468983099135688ull, 122}, {11953994997138665ull, 122}, {26937966198271376ull, 122}, {23103198786242877ull, 122}, {33092512920331351ull, 122},
{50041164984514253ull, 122}, {62350258428634203ull, 122}, {96247562557000007ull, 122}, {11220223478500469ull, 123}, {10652065963330413ull, 123}, {20783419476211401ull, 123},
{16948652064182902ull, 123}, {41566838952422802ull, 123}, {37732071540394303ull, 123}, {83133677904845604ull, 123}, {95679405041829951ull, 123}, {11816729706355152ull, 124},
{11920872196445037ull, 124}, {31615421707036957ull, 124}, {23841744392890074ull, 124}, {55457166099927031ull, 124}, {71421090688580337ull, 124}, {78986483022547450ull, 124},
{95366977571560296ull, 124}, {23737601902800189ull, 125}, {15963924588653306ull, 125}, {55415509103891077ull, 125}, {94950407611200756ull, 125}, {71462747684616291ull, 125},
{11016450627120689ull, 126}, {11349706595408321ull, 126}, {12637837283607592ull, 126}, {23820915894872097ull, 126}, {25275674567215184ull, 126}, {47641831789744194ull, 126},
{77615038342276271ull, 126}, {68219974371642485ull, 126}, {99558153226615135ull, 126}, {98859692860749826ull, 126}, {13868295415139588ull, 127}, {13643994874328497ull, 127},
{36458753178479689ull, 127}, {72917506356959378ull, 127}, {99981195564805281ull, 127}, {14224620406094130ull, 128}, {34848901033326241ull, 128}, {69697802066652482ull, 128},
{10630135906699164ull, 129}, {11379696324875304ull, 129}, {18341526859645390ull, 129}, {20550459754697999ull, 129}, {36683053719290780ull, 129}, {38891986614343389ull, 129},
{90248261821350481ull, 129}, {60901818845917857ull, 129}, {99987028322201960ull, 129}, {99901594238534213ull, 129}, {14673221487716312ull, 130}, {13063936927204615ull, 130},
{29346442975432624ull, 130}, {27737158414920927ull, 130}, {75575040333634169ull, 130}, {55474316829841854ull, 130}, {97285048397938181ull, 130}, {90847910155891393ull, 130},
{13669718662787086ull, 131}, {14471294242522155ull, 131}, {28942588485044310ull, 131}, {57885176970088620ull, 131}, {86026189875397861ull, 131}, {12060434102275389ull, 132},
{11577035394017724ull, 132}, {23637469496293113ull, 132}, {23154070788035448ull, 132}, {47274938992586226ull, 132}, {30710961481294709ull, 132}, {94549877985172452ull, 132},
{77985900473880935ull, 132}, {10151372873410965ull, 133}, {10086434820638806ull, 133}, {15983899061382319ull, 133}, {15597180094776187ull, 133}, {31967798122764638ull, 133},
{31194360189552374ull, 133}, {47371618734237759ull, 133}, {62388720379104748ull, 133}, {94743237468475518ull, 133}, {91649485735626462ull, 133}, {15790539578079253ull, 134},
{12168368902536044ull, 134}, {31581079156158506ull, 134}, {27958908480615297ull, 134}, {59539987636773803ull, 134}, {55917816961230594ull, 134}, {85423601308270419ull, 134},
{78179259957184001ull, 134}, {10459129257137477ull, 135}, {19982456802088651ull, 135}, {20918258514274954ull, 135}, {50016660091822629ull, 135}, {10419569637833904ull, 136},
{10377652703239047ull, 136}, {17621994054325465ull, 136}, {15098578198765419ull, 136}, {27063845045378209ull, 136}, {38377299460803559ull, 136}, {57261001442909047ull, 136},
{84934741984879839ull, 136}, {14097595243460372ull, 137}, {12705524829442861ull, 137}, {22277738306733093ull, 137}, {31328501839073373ull, 137}, {38638024433278535ull, 137},
{71358596686369419ull, 137}, {10024751653907246ull, 138}, {11347910299591819ull, 138}, {15455209773311414ull, 138}, {22695820599183638ull, 138}, {30910419546622828ull, 138},
{61820839093245656ull, 138}, {94054417285553057ull, 138}, {10511745714690729ull, 139}, {10541155095005071ull, 139}, {17098129562799252ull, 139}, {16443902585035551ull, 139},
{23015581742986903ull, 139}, {32887805170071102ull, 139}, {76956287722753805ull, 139}, {92062326971947612ull, 139}, {86828511149838004ull, 139}, {15391257544550761ull, 140},
{33542032147834803ull, 140}, {30782515089101522ull, 140}, {67084064295669606ull, 140}, {41963192471713123ull, 140}, {94964453178359370ull, 140}, {83926384943426246ull, 140},
{10105392388653984ull, 141}, {18992890635671874ull, 141}, {26338765965592577ull, 141}, {37985781271343748ull, 141}, {45331656601264451ull, 141}, {95573400249177417ull, 141},
{71061475496038981ull, 141}, {10056050825603421ull, 142}, {10527804290216203ull, 142}, {11273944967239515ull, 142}, {22547889934479030ull, 142}, {83317437872608199ull, 142},
{81353403053948793ull, 142}, {90191559737916120ull, 142}, {17056294538253521ull, 143}, {15092259719594115ull, 143}, {34112589076507042ull, 143}, {24111415693385727ull, 143},
{42149727640968951ull, 143}, {48222831386771454ull, 143}, {84299455281937902ull, 143}, {96445662773542908ull, 143}, {10001173383121315ull, 144}, {12073807775675292ull, 144},
{22074981158796607ull, 144}, {14074042452299555ull, 144}, {44149962317593214ull, 144}, {46222596710147191ull, 144}, {70225412829638347ull, 144}, {92445193420294382ull, 144},
{10372260432074282ull, 145}, {10073573099051029ull, 145}, {20445833531125311ull, 145}, {11259233961839644ull, 145}, {31705067492964955ull, 145}, {40592979729227369ull, 145},
{45335623180381829ull, 145}, {81185959458454738ull, 145}, {90671246360763658ull, 145}, {90073871694717152ull, 145}, {12682026997185982ull, 146}, {16177454425086297ull, 146},
{25364053994371964ull, 146}, {28859481422272279ull, 146}, {50728107988743928ull, 146}, {57718962844544558ull, 146}, {83381704171939775ull, 146}, {97363413883541035ull, 146},
{13180913406487640ull, 147}, {16676340834387955ull, 147}, {19472682776708207ull, 147}, {54223535416644243ull, 147}, {38945365553416414ull, 147}, {66705363337551820ull, 147},
{93168900970060657ull, 147}, {10544730725190112ull, 148}, {10326123022678221ull, 148}, {13341072667510364ull, 148}, {20870853747868333ull, 148}, {38086120806813627ull, 148},
{30337732023943767ull, 148}, {87576217085420153ull, 148}, {95324605868290013ull, 148}, {98542977152189270ull, 148}, {12953653228366871ull, 149}, {18158917673863882ull, 149},
{25907306456733742ull, 149}, {19708595430437854ull, 149}, {51814612913467484ull, 149}, {57019877358964495ull, 149}, {86026539328846181ull, 149}, {96437068219840203ull, 149},
{12842406993211852ull, 150}, {11403975471792899ull, 150}, {24246382465004751ull, 150}, {22807950943585798ull, 150}, {47054333408590549ull, 150}, {45615901887171596ull, 150},
{94108666817181098ull, 150}, {60341725342422477ull, 150}, {11424670811704644ull, 151}, {10410528890994022ull, 151}, {19972478580571382ull, 151}, {17095615537733476ull, 151},
{97999671780729626ull, 151}, {99696830183562950ull, 151}, {14742379727180277ull, 152}, {16147698704740438ull, 152}, {35662775140744697ull, 152}, {43246109804689001ull, 152},
{89859597340641823ull, 152}, {86492219609378002ull, 152}, {14938585602550643ull, 153}, {11571207871286822ull, 153}, {22914332017235679ull, 153}, {26509793473837465ull, 153},
{35270363390003965ull, 153}, {53019586947674930ull, 153}, {70540726780007930ull, 153}, {88289950337678895ull, 153}, {10512683899399800ull, 154}, {10603917389534986ull, 154},
{14108145356001586ull, 154}, {17657990067535779ull, 154}, {31766135423537365ull, 154}, {35315980135071558ull, 154}, {63532270847074730ull, 154}, {67082115558608923ull, 154},
{98665784001875916ull, 154}, {97305543053586187ull, 154}, {12706454169414946ull, 155}, {16256298880949139ull, 155}, {25412908338829892ull, 155}, {32512597761898278ull, 155},
{50825816677659784ull, 155}, {65025195523796556ull, 155}, {88016249867273337ull, 155}, {86888259151092255ull, 155}, {10277962407150065ull, 156}, {12892240033141203ull, 156},
{20555924814300130ull, 156}, {17377651830218451ull, 156}, {61103779084809849ull, 156}, {34755303660436902ull, 156}, {72688880304955483ull, 156}, {69510607320873804ull, 156},
{11400642909801731ull, 157}, {11585101220145634ull, 157}, {16444739851440104ull, 157}, {23170202440291268ull, 157}, {46340404880582536ull, 157}, {49518677864664215ull, 157},
{92680809761165072ull, 157}, {99037355729328430ull, 157}, {99605262137762730ull, 157}, {10613173493886740ull, 158}, {19807471145865686ull, 158}, {20516909066819583ull, 158},
{40324380212685269ull, 158}, {41033818133639166ull, 158}, {80648760425370538ull, 158}, {82067636267278332ull, 158}, {10618852557971083ull, 159}, {30414965575668083ull, 159},
{16981077590218784ull, 159}, {47396043165886867ull, 159}, {33962155180437568ull, 159}, {94792086331773734ull, 159}, {67924310360875136ull, 159}, {11030885556740998ull, 160},
{10046758969940491ull, 160}, {21077644526681489ull, 160}, {20093517939880982ull, 160}, {41171162466562471ull, 160}, {40187035879761964ull, 160}, {98613964602389829ull, 160},
{10070522021176936ull, 161}, {10032501139198624ull, 161}, {13214137052772011ull, 161}, {19329142285757763ull, 161}, {26428274105544022ull, 161}, {22386644902250639ull, 161},
{69128187880352931ull, 161}, {44773289804501278ull, 161}, {89441456752911201ull, 161}, {89546579609002556ull, 161}, {12187961323534962ull, 162}, {12208985894753233ull, 162},
{24396947218288195ull, 162}, {24417971789506466ull, 162}, {48793894436576390ull, 162}, {48814919007794661ull, 162}, {65065534105841277ull, 162}, {97629838015589322ull, 162},
{19517557774630556ull, 163}, {13046746135117489ull, 163}, {45547976331210721ull, 163}, {91095952662421442ull, 163}, {10328069137758982ull, 164}, {19538582345848827ull, 164},
{29908700626044351ull, 164}, {27337195627213741ull, 164}, {42934422189943569ull, 164}, {54674391254427482ull, 164}, {97608813444371051ull, 164}, {87322793449048611ull, 164},
{14311474063314523ull, 165}, {13282872063782279ull, 165}, {28622948126629046ull, 165}, {26565744127564558ull, 165}, {57245896253258092ull, 165}, {41391519190645203ull, 165},
{98637415443903295ull, 165}, {82783038381290406ull, 165}, {10044718023361234ull, 166}, {19727483088780659ull, 166}, {19606832102800056ull, 166}, {47321829215877461ull, 166},
{94643658431754922ull, 166}, {55068041268213001ull, 166}, {10140011364666869ull, 167}, {10603394901308550ull, 167}, {12635241255698070ull, 167}, {18832210897566502ull, 167},
{25270482511396140ull, 167}, {50540965022792280ull, 167}, {77240038958674925ull, 167}, {99170734677175643ull, 167}, {10108193004558456ull, 168}, {15448007791734985ull, 168},
{20216386009116912ull, 168}, {30896015583469970ull, 168}, {40432772018233824ull, 168}, {61792031166939940ull, 168}, {80865544036467648ull, 168}, {93830919889999114ull, 168},
{12358406233387988ull, 169}, {16555347880975313ull, 169}, {24716812466775976ull, 169}, {41272160347751289ull, 169}, {49433624933551952ull, 169}, {67667749473562195ull, 169},
{98867249867103904ull, 169}, {10072659954209580ull, 170}, {10175996576642579ull, 170}, {13533549894712439ull, 170}, {39257628356909373ull, 170}, {33885543047997597ull, 170},
{78515256713818746ull, 170}, {60952642837422475ull, 170}, {94631512640554074ull, 170}, {93598501180625127ull, 170}, {15124508162899372ull, 171}, {12190528567484495ull, 171},
{24381057134968990ull, 171}, {61448516719340453ull, 171}, {48762114269937980ull, 171}, {90705785281303241ull, 171}, {97524228539875960ull, 171}, {10132616481084782ull, 172},
{25943095339450725ull, 172}, {19504845707975192ull, 172}, {51886190678901450ull, 172}, {45447941047425917ull, 172}, {97334131726327367ull, 172}, {90895882094851834ull, 172},
{10377238135780290ull, 173}, {11137625389974662ull, 173}, {20754476271560580ull, 173}, {14316226640085047ull, 173}, {41508952543121160ull, 173}, {28632453280170094ull, 173},
{83017905086242320ull, 173}, {57264906560340188ull, 173}, {95894404349193386ull, 173}, {98094518980521739ull, 173}, {16603581017248464ull, 174}, {33207162034496928ull, 174},
{66414324068993856ull, 174}, {38797784665943025ull, 174}, {97757945226342085ull, 174}, {77595569331886050ull, 174}, {11792032112079812ull, 175}, {11181245262892194ull, 175},
{19551589045268417ull, 175}, {15519113866377210ull, 175}, {39103178090536834ull, 175}, {35070702911645627ull, 175}, {74173881002182461ull, 175}, {70141405823291254ull, 175},
{10240120725442091ull, 176}, {10557986281870238ull, 176}, {16447766271992975ull, 176}, {12415291093101768ull, 176}, {32895532543985950ull, 176}, {28863057365094743ull, 176},
{65791065087971900ull, 176}, {57726114730189486ull, 176}, {91475466888785173ull, 176}, {99322328744814144ull, 176}, {13158213017594380ull, 177}, {14219000498515139ull, 177},
{35442163873891933ull, 177}, {70884327747783866ull, 177}, {96139966302051867ull, 177}, {10526570414075504ull, 178}, {14048977951289353ull, 178}, {21053140828151008ull, 178},
{15449810526661684ull, 178}, {42106281656302016ull, 178}, {45628689193515865ull, 178}, {84212563312604032ull, 178}, {87734970849817881ull, 178}, {10790476050123553ull, 179},
{10983407164496642ull, 179}, {14729068140192497ull, 179}, {18251475677406346ull, 179}, {41690097103446921ull, 179}, {88567339955528071ull, 179}, {83380194206893842ull, 179},
{97083962127003060ull, 179}, {99327493681542707ull, 179}, {14895541961334535ull, 180}, {13563751392198231ull, 180}, {19416792425400612ull, 180}, {32314648533030691ull, 180},
{69816442814695611ull, 180}, {64629297066061382ull, 180}, {11916433569067628ull, 181}, {12897856107630079ull, 181}, {24814289676697707ull, 181}, {54815725102029643ull, 181},
{49628579353395414ull, 181}, {99257158706790828ull, 181}, {11608005154707794ull, 182}, {11355714035830909ull, 182}, {22963719190538703ull, 182}, {17776573441904474ull, 182},
{45927438381077406ull, 182}, {40740292632443177ull, 182}, {91854876762154812ull, 182}, {56049438759468979ull, 182}, {98051186986296581ull, 182}, {96032858035281501ull, 182},
{15359604350801179ull, 183}, {10071542154616196ull, 183}, {35805438002685833ull, 183}, {86465898118419075ull, 183}, {17293179623683815ull, 184}, {34586359247367630ull, 184},
{69172718494735260ull, 184}, {10172458602166950ull, 185}, {13834543698947052ull, 185}, {27669087397894104ull, 185}, {55338174795788208ull, 185}, {98233624558096117ull, 185},
{99912938796581421ull, 185}, {19163618984929069ull, 186}, {16275933763467120ull, 186}, {28929179243009341ull, 186}, {32551867526934240ull, 186}, {61481046769943581ull, 186},
{65103735053868480ull, 186}, {81747170348567075ull, 186}, {13020747010773696ull, 187}, {22418805737622493ull, 187}, {26041494021547392ull, 187}, {48460299759169885ull, 187},
{52082988043094784ull, 187}, {96920599518339770ull, 187}, {81159167898596715ull, 187}, {12373944315806300ull, 188}, {10162461911810265ull, 188}, {19384119903667954ull, 188},
{16231833579719343ull, 188}, {38768239807335908ull, 188}, {35615953483387297ull, 188}, {77536479614671816ull, 188}, {71231906966774594ull, 188}, {10030832397537081ull, 189},
{10011577369353364ull, 189}, {18029124982093252ull, 189}, {11724552334196030ull, 189}, {36058249964186504ull, 189}, {23449104668392060ull, 189}, {50935088622331145ull, 189},
{68079620642825983ull, 189}, {80688765938620427ull, 189}, {93796418673568240ull, 189}, {10187017724466229ull, 190}, {20374035448932458ull, 190}, {18759283734713648ull, 190},
{40748070897864916ull, 190}, {58699978775469159ull, 190}, {81496141795729832ull, 190}, {96218546244896455ull, 190}, {20535510620354339ull, 191}, {19243709248979291ull, 191},
{41071021240708678ull, 191}, {38487418497958582ull, 191}, {59668829804000445ull, 191}, {76974836995917164ull, 191}, {10231893098192165ull, 192}, {10067788327707526ull, 192},
{11933765960800089ull, 192}, {13328085204983356ull, 192}, {23867531921600178ull, 192}, {33217695139650171ull, 192}, {47735063843200356ull, 192}, {72996915008983801ull, 192},
{95470127686400712ull, 192}, {88908602956717253ull, 192}, {15911687947733452ull, 193}, {14402533451206682ull, 193}, {31823375895466904ull, 193}, {25261851165783445ull, 193},
{63646751790933808ull, 193}, {46980486594936971ull, 193}, {70208276520617267ull, 193}, {93960973189873942ull, 193}, {11312064063534794ull, 194}, {10104740466313378ull, 194},
{15458941598775421ull, 194}, {47584148393547679ull, 194}, {30917883197550842ull, 194}, {95168296787095358ull, 194}, {61835766395101684ull, 194}, {10015510128604968ull, 195},
{10451186534472937ull, 195}, {20466696663077905ull, 195}, {22366912396618439ull, 195}, {29967775330780575ull, 195}, {70901168656936385ull, 195}, {59935550661561150ull, 195},
{89467649586473756ull, 195}, {97939865332371830ull, 195}, {14180233731387277ull, 196}, {11987110132312230ull, 196}, {28360467462774554ull, 196}, {26167343863699507ull, 196},
{56720934925549108ull, 196}, {54527811326474061ull, 196}, {95896881058497840ull, 196}, {11782811704924831ull, 197}, {13417199124024023ull, 197}, {23565623409849662ull, 197},
{19179376211699568ull, 197}, {47131246819699324ull, 197}, {38358752423399136ull, 197}, {68503746630473939ull, 197}, {76717504846798272ull, 197}, {17209747084614863ull, 198},
{16986252612624521ull, 198}, {25758747008924709ull, 198}, {42633252385554059ull, 198}, {77052746554783785ull, 198}, {59731252234173751ull, 198}, {86607471603050170ull, 198},
{93927251931413135ull, 198}, {15410549310956757ull, 199}, {10124703225977610ull, 199}, {30821098621913514ull, 199}, {18785450386282627ull, 199}, {61642197243827028ull, 199},
{37570900772565254ull, 199}, {97749141950719689ull, 199}, {75141801545130508ull, 199}, {12035648235630887ull, 200}, {13499604301303480ull, 200}, {24071296471261774ull, 200},
{20135410816412975ull, 200}, {33407023846631965ull, 200}, {55006390728717533ull, 200}, {73677845479457915ull, 200}, {80541643265651900ull, 200}, {10434897407307600ull, 201},
{10799683441042784ull, 201}, {14735569095891583ull, 201}, {16108328653130380ull, 201}, {29471138191783166ull, 201}, {32216657306260760ull, 201}, {58942276383566332ull, 201},
{64433314612521520ull, 201}, {89786174132588295ull, 201}, {94634024871775054ull, 201}, {15211715712040065ull, 202}, {12886662922504304ull, 202}, {17957234826517659ull, 202},
{25773325845008608ull, 202}, {35914469653035318ull, 202}, {43730560671526267ull, 202}, {71828939306070636ull, 202}, {79645030324561585ull, 202}, {12169372569632052ull, 203},
{11872548541701633ull, 203}, {24338745139264104ull, 203}, {15929006064912317ull, 203}, {55899933241158319ull, 203}, {31858012129824634ull, 203}, {87757945370982953ull, 203},
{63716024259649268ull, 203}, {10210416500394312ull, 204}, {10230149758854323ull, 204}, {13218123296618524ull, 204}, {20440566259248635ull, 204}, {24041921111333685ull, 204},
{48083842222667370ull, 204}, {74539822074364429ull, 204}, {96167684445334740ull, 204}, {93812825480351399ull, 204}, {15865694607634231ull, 205}, {16352453007398908ull, 205},
{19233536889066948ull, 205}, {32704906014797816ull, 205}, {38467073778133896ull, 205}, {76934147556267792ull, 205}, {10192985220867082ull, 206}, {11832177173298975ull, 206},
{20385970441734164ull, 206}, {23664354346597950ull, 206}, {34523014720367571ull, 206}, {62797103277634385ull, 206}, {12559420655526877ull, 207}, {18931483477278360ull, 207},
{25118841311053754ull, 207}, {50237682622107508ull, 207}, {81728586754912745ull, 207}, {93980165763812807ull, 207}, {94965259033018615ull, 207}, {17546247920142410ull, 208},
{16345717350982549ull, 208}, {23795174083243167ull, 208}, {32691434701965098ull, 208}, {65382869403930196ull, 208}, {79081252299291571ull, 208}, {85576451779693780ull, 208},
{14036998336113928ull, 209}, {14375613776866481ull, 209}, {28073996672227856ull, 209}, {17115290355938756ull, 209}, {34230580711877512ull, 209}, {62643192824857921ull, 209},
{10958706316289100ull, 210}, {10878682006917849ull, 210}, {18968416178444023ull, 210}, {16019419724309846ull, 210}, {26220870849722589ull, 210}, {87429577602199047ull, 210},
{52441741699445178ull, 210}, {12831540641322127ull, 211}, {15142723219006718ull, 211}, {34987835902753869ull, 211}, {20960691817903821ull, 211}, {46623773100548075ull, 211},
{97949935665836583ull, 211}, {93247546201096150ull, 211}, {14027144084850048ull, 212}, {13054656468153461ull, 212}, {18649509240219230ull, 212}, {37299018480438460ull, 212},
{79300426425617353ull, 212}, {74598036960876920ull, 212}, {11999705361237308ull, 213}, {14919607392175384ull, 213}, {44596334376935335ull, 213}, {29839214784350768ull, 213},
{74435549161286103ull, 213}, {59678429568701536ull, 213}, {97947496484988268ull, 213}, {97794765408790711ull, 213}, {17838533750774134ull, 214}, {10054730127844134ull, 214},
{35677067501548268ull, 214}, {48813211787581969ull, 214}, {78327450972751103ull, 214}, {97626423575163938ull, 214}, {13200358867998567ull, 215}, {10833110490137134ull, 215},
{30260512256479701ull, 215}, {17806426459791701ull, 215}, {31753058399100835ull, 215}, {63506116798201670ull, 215}, {11332245998495367ull, 216}, {10210406200302734ull, 216},
{22664491996990734ull, 216}, {12701223359640334ull, 216}, {25402446719280668ull, 216}, {74591225233744703ull, 216}, {82310814274709837ull, 216}, {99977031585527634ull, 216},
{99727092860258777ull, 216}, {11830409430362887ull, 217}, {19549998471328021ull, 217}, {23535305926268181ull, 217}, {39099996942656042ull, 217}, {47070611852536362ull, 217},
{78325506819769677ull, 217}, {94141223705072724ull, 217}, {94015710770615131ull, 217}, {15690203950845454ull, 218}, {15564691016387861ull, 218}, {31380407901690908ull, 218},
{18752936980339989ull, 218}, {62760815803381816ull, 218}, {50133344882030897ull, 218}, {75513799659190328ull, 218}, {87639218842710875ull, 218}, {10177284497755291ull, 219},
{12501957986893326ull, 219}, {22679242484648617ull, 219}, {17527843768542175ull, 219}, {47683158458435269ull, 219}, {35055687537084350ull, 219}, {95366316916870538ull, 219},
{70111375074168700ull, 219}, {10023447934399102ull, 220}, {10117212232199059ull, 220}, {13557340317006133ull, 220}, {14022275014833740ull, 220}, {27114680634012266ull, 220},
{27579615331839873ull, 220}, {54229361268024532ull, 220}, {55159230663679746ull, 220}, {10287950616211778ull, 221}, {11217820011866992ull, 221}, {32258655942118155ull, 221},
{22435640023733984ull, 221}, {64517311884236310ull, 221}, {33188525337773369ull, 221}, {66377050675546738ull, 221}, {12903462376847262ull, 222}, {10462047042541936ull, 222},
{25806924753694524ull, 222}, {20285062960926107ull, 222}, {51613849507389048ull, 222}, {28887371212157615ull, 222}, {80501220719546663ull, 222}, {57774742424315230ull, 222},
{10122885886704325ull, 223}, {11427142260031493ull, 223}, {11554948484863046ull, 223}, {22982090744894539ull, 223}, {23109896969726092ull, 223}, {45964181489789078ull, 223},
{46219793939452184ull, 223}, {91928362979578156ull, 223}, {92439587878904368ull, 223}, {18078937656319904ull, 224}, {27757437608637621ull, 224}, {64682150270266747ull, 224},
{92695200328567474ull, 224}, {10489505164263594ull, 225}, {11511954962916018ull, 225}, {56837105328547331ull, 225}, {10338016640080980ull, 226}, {10309636976691795ull, 226},
{12834185074188107ull, 226}, {25668370148376214ull, 226}, {51336740296752428ull, 226}, {84790199324324125ull, 226}, {98555301735505975ull, 226}, {85692736997928683ull, 226},
{12377240304707991ull, 227}, {16958039864864825ull, 227}, {19711060347101195ull, 227}, {33916079729729650ull, 227}, {53627140076830845ull, 227}, {43540299552201271ull, 227},
{93049260771033235ull, 227}, {72875579721774087ull, 227}, {10725428015366169ull, 228}, {13566431891891860ull, 228}, {21450856030732338ull, 228}, {24291859907258029ull, 228},
{45742715937990367ull, 228}, {48583719814516058ull, 228}, {91485431875980734ull, 228}, {94326435752506425ull, 228}, {10628929434503523ull, 229}, {10853145513513488ull, 229},
{16024283273975594ull, 229}, {18865287150501285ull, 229}, {32048566547951188ull, 229}, {37730574301002570ull, 229}, {64097133095902376ull, 229}, {75461148602005140ull, 229},
{98986703520379255ull, 229}, {92507171861159286ull, 229}, {14115332951024469ull, 230}, {15092229720401028ull, 230}, {19797340704075851ull, 230}, {30184459440802056ull, 230},
{39594681408151702ull, 230}, {60368918881604112ull, 230}, {79189362816303404ull, 230}, {91530275091782727ull, 230}, {10510748945318328ull, 231}, {10387118736726205ull, 231},
{25052715176735015ull, 231}, {20774237473452410ull, 231}, {45826952650187425ull, 231}, {41548474946904820ull, 231}, {91653905300374850ull, 231}, {87375427597092245ull, 231},
{10021086070694006ull, 232}, {10382260776982035ull, 232}, {18330781060074970ull, 232}, {17475085519418449ull, 232}, {36661562120149940ull, 232}, {35805866579493419ull, 232},
{73323124240299880ull, 232}, {71611733158986838ull, 232}, {89581339512773779ull, 232}, {14664624848059976ull, 233}, {12953233766746934ull, 233}, {29329249696119952ull, 233},
{25906467533493868ull, 233}, {58658499392239904ull, 233}, {70756037618330317ull, 233}, {93121922332298982ull, 233}, {79430793681794646ull, 233}, {13419530828381199ull, 234},
{21043892111677879ull, 234}, {23144681672013177ull, 234}, {42087784223355758ull, 234}, {54185322449446171ull, 234}, {96273106672801929ull, 234}, {10098188492939390ull, 235},
{11996098398906138ull, 235}, {16096237692392459ull, 235}, {44087133956506781ull, 235}, {28092336091298597ull, 235}, {88174267913013562ull, 235}, {56184672182597194ull, 235},
{95968787191249104ull, 235}, {93085925823974083ull, 235}, {15994797865208184ull, 236}, {12138114156964123ull, 236}, {20094937158694505ull, 236}, {68160482616066477ull, 236},
{40189874317389010ull, 236}, {76198457479544279ull, 236}, {80379748634778020ull, 236}, {11959580061119799ull, 237}, {12089423039915671ull, 237}, {19997554924597601ull, 237},
{28100451277473339ull, 237}, {56200902554946678ull, 237}, {60122507752588675ull, 237}, {88352802008857886ull, 237}, {11136306127952638ull, 238}, {10507796662979285ull, 238},
{12024501550517735ull, 238}, {24049003101035470ull, 238}, {48098006202070940ull, 238}, {81138101078547245ull, 238}, {96196012404141880ull, 238}, {96606246769535503ull, 238},
{15642765770652042ull, 239}, {16227620215709449ull, 239}, {19239202480828376ull, 239}, {25847221456123637ull, 239}, {45086423936952013ull, 239}, {51694442912247274ull, 239},
{96780866849199287ull, 239}, {12046329060475708ull, 240}, {11660492377508507ull, 240}, {16712965779721753ull, 240}, {23320984755017014ull, 240}, {33425931559443506ull, 240},
{46641969510034028ull, 240}, {66851863118887012ull, 240}, {93283939020068056ull, 240}, {11971601492124910ull, 241}, {16090747550488947ull, 241}, {23943202984249820ull, 241},
{32181495100977894ull, 241}, {40033950534738767ull, 241}, {50761115568398065ull, 241}, {80067901069477534ull, 241}, {99419194902832107ull, 241}, {10152223113679613ull, 242},
{19154562387399856ull, 242}, {20304446227359226ull, 242}, {38309124774799712ull, 242}, {40608892454718452ull, 242}, {81217784909436904ull, 242}, {10382199881671487ull, 243},
{20764399763342974ull, 243}, {28386878429111973ull, 243}, {41528799526685948ull, 243}, {56773756858223946ull, 243}, {83057599053371896ull, 243}, {87000449431270911ull, 243},
{10776758968088211ull, 244}, {12879247104798589ull, 244}, {24969924134017375ull, 244}, {49939848268034750ull, 244}, {99610993473504019ull, 244}, {99879696536069500ull, 244},
{10776539729186753ull, 245}, {37586168387688391ull, 245}, {39163308538847997ull, 245}, {55984967543742685ull, 245}, {78326617077695994ull, 245}, {92782565855851273ull, 245},
{99091126460489697ull, 245}, {11196993508748537ull, 246}, {14351273811067749ull, 246}, {22393987017497074ull, 246}, {15980751445771120ull, 246}, {57562107694902291ull, 246},
{31961502891542240ull, 246}, {89575948069988296ull, 246}, {63923005783084480ull, 246}, {12805536150034402ull, 247}, {12784601156616896ull, 247}, {25611072300068804ull, 247},
{38364270966559441ull, 247}, {63975343266628245ull, 247}, {76728541933118882ull, 247}, {10064387976636970ull, 248}, {12795068653325649ull, 248}, {10210932930559512ull, 248},
{25590137306651298ull, 248}, {23006001583885161ull, 248}, {51180274613302596ull, 248}, {48596138890536459ull, 248}, {97192277781072918ull, 248}, {11269709211766974ull, 249},
{15337334389256774ull, 249}, {22539418423533948ull, 249}, {30674668778513548ull, 249}, {33258804501279685ull, 249}, {66517609002559370ull, 249}, {94608142058306781ull, 249},
{11676471729515954ull, 250}, {11389350496971440ull, 250}, {13303521800511874ull, 250}, {24836432913755571ull, 250}, {26607043601023748ull, 250}, {48189376372787479ull, 250},
{74796419973811227ull, 250}, {96378752745574958ull, 250}, {10259965327755208ull, 251}, {10231271056446961ull, 251}, {18979052658170259ull, 251}, {15255981885706978ull, 251},
{37958105316340518ull, 251}, {34235034543877237ull, 251}, {46887736315990743ull, 251}, {68470069087754474ull, 251}, {93775472631981486ull, 251}, {85573239224038969ull, 251},
{10866775572183461ull, 252}, {10715557199580270ull, 252}, {21733551144366922ull, 252}, {28726037571483911ull, 252}, {36172179116410473ull, 252}, {64746998315291193ull, 252},
{72344358232820946ull, 252}, {10152405092211443ull, 253}, {12707450266893133ull, 253}, {20304810184422886ull, 253}, {24439814691651803ull, 253}, {44744624876074689ull, 253},
{30154778531427947ull, 253}, {89489249752149378ull, 253}, {56174552555626977ull, 253}, {14589846344646742ull, 254}, {18724850851875659ull, 254}, {33314697196522401ull, 254},
{37449701703751318ull, 254}, {74899403407502636ull, 254}, {87492145840142239ull, 254}, {99803294906352564ull, 254}, {10826103283176325ull, 255}, {16633882484392094ull, 255},
{30805535155542123ull, 255}, {24114436379594715ull, 255}, {61611070311084246ull, 255}, {95762154854600073ull, 255}, {10630666477134712ull, 256}, {26475093842271593ull, 256},
{19291549103675772ull, 256}, {52950187684543186ull, 256}, {27459985767568419ull, 256}, {80410173452111605ull, 256}, {54919971535136838ull, 256}, {10172683138641365ull, 257},
{10358596527694206ull, 257}, {16082034690422321ull, 257}, {18306657178378946ull, 257}, {32164069380844642ull, 257}, {36613314356757892ull, 257}, {64328138761689284ull, 257},
{73226628713515784ull, 257}, {89818340678664051ull, 257}, {86574363641255534ull, 257}, {11568036937374450ull, 258}, {29939446892888017ull, 258}, {33498842873618617ull, 258},
{59878893785776034ull, 258}, {66997685747237234ull, 258}, {88038642688298751ull, 258}, {70557081727967834ull, 258}, {10678187942191800ull, 259}, {27447869706376597ull, 259},
{31719144883253317ull, 259}, {37414178452422277ull, 259}, {98004951434344431ull, 259}, {74828356904844554ull, 259}, {10078017320411269ull, 260}, {10820563781421024ull, 260},
{32288648240170213ull, 260}, {36844675095505381ull, 260}, {64577296480340426ull, 260}, {73689350191010762ull, 260}, {90031904437507887ull, 260}, {11093048553934018ull, 261},
{12380564559969761ull, 261}, {30010634812502629ull, 261}, {67845807329639851ull, 261}, {88744388431472144ull, 261}, {86069914750980523ull, 261}, {10439346384074133ull, 262},
{13034266729829646ull, 262}, {20878692768148266ull, 262}, {23473613113903779ull, 262}, {28703230472782859ull, 262}, {46947226227807558ull, 262}, {57406460945565718ull, 262},
{75650456700590417ull, 262}, {10962308119962041ull, 263}, {21924616239924082ull, 263}, {13557228465717554ull, 263}, {43849232479848164ull, 263}, {26611383529231227ull, 263},
{70460616009079391ull, 263}, {53222767058462454ull, 263}, {91219978775123495ull, 263}, {10242094689929386ull, 264}, {17740922352820818ull, 264}, {24736676613508369ull, 264},
{35481844705641636ull, 264}, {60218521319150005ull, 264}, {70963689411283272ull, 264}, {98946706454033476ull, 264}, {75216176644932869ull, 264}, {12043704263830001ull, 265},
{24087408527660002ull, 265}, {18893263840873066ull, 265}, {48174817055320004ull, 265}, {56322912804059803ull, 265}, {96349634110640008ull, 265}, {10531040860997630ull, 266},
{10816543835845146ull, 266}, {16010688522632082ull, 266}, {13484991922950493ull, 266}, {32021377045264164ull, 266}, {40169472794003963ull, 266}, {72190849839268127ull, 266},
{80338945588007926ull, 266}, {95493125186097460ull, 266}, {99731839634864145ull, 266}, {13199488948102977ull, 267}, {17697408267349545ull, 267}, {27246720785959291ull, 267},
{35394816534699090ull, 267}, {62641537320658381ull, 267}, {70789633069398180ull, 267}, {92690691646357566ull, 267}, {86238081677124441ull, 267}, {14157926613879636ull, 268},
{29606375221605897ull, 268}, {28315853227759272ull, 268}, {57922228449365169ull, 268}, {56631706455518544ull, 268}, {79380507922231267ull, 268}, {76799463934538017ull, 268},
{11650312319631748ull, 269}, {38528784166653671ull, 269}, {37496366571576371ull, 269}, {77057568333307342ull, 269}, {74992733143152742ull, 269}, {96673502639776042ull, 269},
{96486626991030963ull, 269}, {37393124812068641ull, 270}, {38632025926161401ull, 270}, {74786249624137282ull, 270}, {77264051852322802ull, 270}, {38797212741373769ull, 271},
{37475718219674825ull, 271}, {77594425482747538ull, 271}, {74951436439349650ull, 271}, {10138132687332853ull, 272}, {11686550983622570ull, 272}, {17633276331267818ull, 272},
{14990287287869930ull, 272}, {29980574575739860ull, 272}, {85750316387531975ull, 272}, {59961149151479720ull, 272}, {99792860451193119ull, 272}, {98778385955776336ull, 272},
{17150063277506395ull, 273}, {11992229830295944ull, 273}, {34300126555012790ull, 273}, {29142293107802339ull, 273}, {63442419662815129ull, 273}, {58284586215604678ull, 273},
{95937838642367552ull, 273}, {13720050622005116ull, 274}, {15370984629963093ull, 274}, {27440101244010232ull, 274}, {22282267796799781ull, 274}, {49722369040810013ull, 274},
{44564535593599562ull, 274}, {99444738081620026ull, 274}, {89129071187199124ull, 274}, {12007607187046183ull, 275}, {10233654325086294ull, 275}, {24015214374092366ull, 275},
{13699547479671464ull, 275}, {48030428748184732ull, 275}, {27399094959342928ull, 275}, {96060857496369464ull, 275}, {54798189918685856ull, 275}, {99924406675965893ull, 275},
{99876166170824700ull, 275}, {16859857603465421ull, 276}, {13311951879545643ull, 276}, {26400333297634681ull, 276}, {52800666595269362ull, 276}, {97834810358329353ull, 276},
{83196046539737031ull, 276}, {15041190649214211ull, 277}, {15130618833796853ull, 277}, {30082381298428422ull, 277}, {22673571204549619ull, 277}, {37759475946055151ull, 277},
{97924238542911995ull, 277}, {75518951892110302ull, 277}, {11818324876373028ull, 278}, {10586961774428665ull, 278}, {19584847708582399ull, 278}, {21173923548857330ull, 278},
{39169695417164798ull, 278}, {28761590011901417ull, 278}, {78339390834329596ull, 278}, {67931285429066215ull, 278}, {10042140074047763ull, 279}, {10075150445587963ull, 279},
{10233375332540622ull, 279}, {13586257085813243ull, 279}, {23819632418353865ull, 279}, {27172514171626486ull, 279}, {47639264836707730ull, 279}, {54345028343252972ull, 279},
{95278529673415460ull, 279}, {84520964122706561ull, 279}, {15702824181410471ull, 280}, {16233616473886788ull, 280}, {19055705934683092ull, 280}, {31936440655297259ull, 280},
{38111411869366184ull, 280}, {50992146589980351ull, 280}, {76222823738732368ull, 280}, {90165143044299169ull, 280}, {12349942428137850ull, 281}, {10410746234986597ull, 281},
{22760688663124447ull, 281}, {20821492469973194ull, 281}, {45521377326248894ull, 281}, {33702227190587361ull, 281}, {98983512401856815ull, 281}, {10027132323913492ull, 282},
{19796702480371363ull, 282}, {11892739326363139ull, 282}, {39593404960742726ull, 282}, {23785478652726278ull, 282}, {79186809921485452ull, 282}, {47534162710101753ull, 282},
{95031530824852703ull, 282}, {95068325420203506ull, 282}, {15807926308016448ull, 283}, {15844720903367251ull, 283}, {18998947245900380ull, 283}, {31689441806734502ull, 283},
{37997894491800760ull, 283}, {63378883613469004ull, 283}, {75995788983601520ull, 283}, {88723078139786445ull, 283}, {12616905370132516ull, 284}, {10145036729597137ull, 284},
{15199157796720304ull, 284}, {17744615627957289ull, 284}, {32943773424677593ull, 284}, {35489231255914578ull, 284}, {65887546849355186ull, 284}, {70978462511829156ull, 284},
{10543744509792125ull, 285}, {10329009706351152ull, 285}, {67414821548097377ull, 285}, {71487554078076553ull, 285}, {94102317796402994ull, 285}, {85742117933003669ull, 285},
{11853871297627805ull, 286}, {15926603827606981ull, 286}, {23707742595255610ull, 286}, {31853207655213962ull, 286}, {65378455283107789ull, 286}, {45743445217831355ull, 286},
{93158930408342575ull, 286}, {91486890435662710ull, 286}, {10151913027174190ull, 287}, {18631786081668515ull, 287}, {18297378087132542ull, 287}, {37263572163337030ull, 287},
{36594756174265084ull, 287}, {74527144326674060ull, 287}, {73189512348530168ull, 287}, {10127978388955190ull, 288}, {10558124936367163ull, 288}, {14905428865334812ull, 288},
{13567796887190920ull, 288}, {29810857730669624ull, 288}, {59621715461339248ull, 288}, {65402389921326789ull, 288}, {96120733082728332ull, 288}, {91200351717564737ull, 288},
{11838313782785455ull, 289}, {14236612876262866ull, 289}, {22692551292538191ull, 289}, {28473225752525732ull, 289}, {45385102585076382ull, 289}, {51165777045063923ull, 289},
{71460029244124703ull, 289}, {83021378164099785ull, 289}, {12176551319436468ull, 290}, {12545425193007801ull, 290}, {22016076219236165ull, 290}, {16604275632819957ull, 290},
{44032152438472330ull, 290}, {33208551265639914ull, 290}, {63342328364500391ull, 290}, {91139079043724097ull, 290}, {10085853425689750ull, 291}, {10921637450977440ull, 291},
{17612860975388932ull, 291}, {13898375339611853ull, 291}, {35225721950777864ull, 291}, {27796750679223706ull, 291}, {70451443901555728ull, 291}, {52518727191667975ull, 291},
{98887906049777076ull, 291}, {93254286007007071ull, 291}, {10503745438333595ull, 292}, {21007490876667190ull, 292}, {68350694813889009ull, 292}, {42014981753334380ull, 292},
{76753691164555885ull, 292}, {84029963506668760ull, 292},
};
