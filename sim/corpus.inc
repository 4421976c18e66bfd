{2,2,"x-xx",".","DejaVuSansCondensed-9"},
{1,1,"x",".","AbyssinicaSIL-R-8"},
{2,3,"xx-xxx","'","gargi-10"},
{2,4,"xxxxx-x-","'","DroidSans-12"},
{1,7,"x-----x",":","FreeSans-9"},
{1,7,"xx---xx",":","AbyssinicaSIL-R-10"},
{3,10,"-x--x--------------xx-xxxx-x--",";","DroidSans-11"},
{2,8,"-x-x-------x-xx-",";","AbyssinicaSIL-R-10"},
{2,11,"xx----x-x-x-x-x-x-x-x-","i","segoeUI_11"},
{3,10,"-xx-xx---xxx-xx-xx-xx-xx-xx-xx","i","trebuchetMS_10_bold"},
{1,9,"xxxxxx-xx","!","AbyssinicaSIL-R-9"},
{2,11,"xxx-x-x-x-x-x-x---xxxx","!","Oxygen-Sans-10"},
{2,12,"xxxxxxxxxxxxxxxxxxxxxxxx","I","AbyssinicaSIL-R-12"},
{1,9,"xxxxxxxxx","I","AbyssinicaSIL-R-9"},
{1,13,"xxxxxxxxxxxxx","|","AbyssinicaSIL-R-9"},
{1,16,"xxxxxxxxxxxxxxxx","|","DroidSans-11"},
{2,3,"xx-x-x","`","Oxygen-Sans-10"},
{2,2,"xx-x","`","DejaVuSansCondensed-9"},
{2,4,"-xxxx-x-",",","DejaVuSansCondensed-10"},
{2,3,"-xxxx-",",","DroidSans-9"},
{7,11,"xxxx------x------x------x------x------x------x------x------x------x-------xxx","l","DejaVuSansMono-10"},
{2,9,"xxxxxxxxxxxxxxxxxx","l","tahoma_8_bold"},
{4,17,"--xx--xx----------xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xxxxx-","j","AbyssinicaSIL-R-12"},
{2,14,"-x-----x-x-x-x-x-x-x-x-x-xxx","j","DejaVuSansCondensed-11"},
{3,12,"-xx-x--x-x--x--x--x--x--x---x--x--xx","(","AbyssinicaSIL-R-10"},
{4,11,"--xx-xx--xx-xx--xx--xx--xx--xx---xx--xx---xx","(","tahoma_8_bold"},
{3,16,"x--xx--x--x--xx-xx--x--x--x--x-xx-xx-x--x-xx-x--",")","gargi-11"},
{3,15,"xx--x--xx-xx--x--x--x--x--x--x--x-xx-xx-x-xx-",")","Oxygen-Sans-12"},
{2,12,"xx-x-x-x-x-x-x-x-x-x-xxx","]","gargi-9"},
{4,13,"xxxx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xxxxxx","]","Oxygen-Sans-10"},
{4,14,"xxxxxx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xxxx","[","Oxygen-Sans-12"},
{3,14,"xxxx--x--x--x--x--x--x--x--x--x--x--x--xxx","[","gargi-10"},
{3,11,"--x--x--x--x--x--x--x--x--x--xxx-","J","DroidSans-9"},
{4,11,"--xx--xx--xx--xx--xx--xx--xx--xx--x---x-xx--","J","segoeUI_11"},
{3,1,"xxx","-","AbyssinicaSIL-R-8"},
{4,2,"xxx-xxxx","-","noname"},
{3,3,"xxxx-xxxx","°","trebuchetMS_10_bold"},
{4,4,"-xx-x--xx--x-xx-","°","segoeUI_11"},
{7,6,"---x------x---xxxxxxx--xxx----x-x----x-x--","*","DroidSans-10"},
{5,6,"--x----x--x-x-x-xxx--x-x--x-x-","*","segoeUI_11"},
{6,8,"xx-xxx-xx--x-x-----x-----x-----x-----x----xxx---","r","DejaVuSerif-10"},
{4,7,"x-xxxx--x---x---x---x---x---","r","AbyssinicaSIL-R-9"},
{6,12,"--x-----x-----x---xxxxx---x-----x-----x-----x-----x-----x-----x-----xxxx","t","Oxygen-Sans-12"},
{5,9,"-x----x---xxxxx-x----x----x----x----x--x-xxx-","t","DejaVuSerif-9"},
{3,8,"xx-----xx-xx-xx-xx-xx-xx","ï","segoeUI_8_bold"},
{4,10,"xx--xx-------xxx--xx--xx--xx--xx--xx--xx","ï","trebuchetMS_10_bold"},
{6,12,"-----x----x-----x----xx----x-----x----x-----x----xx----x-----x----x-----","/","DejaVuSansMono-10"},
{6,12,"-----x----x-----x-----x----x-----x----x-----x----x-----x-----x----x-----","/","DejaVuSansMono-10"},
{7,12,"--xx---xxxx------x------x------x------x------x------x------x------x------x---xxxxxxx","1","Oxygen-Sans-12"},
{4,11,"---x-xxxxx-x---x---x---x---x---x---x---x---x","1","segoeUI_11"},
{5,11,"--xxx--x----x--xxxxx--x----x----x----x----x----x----x--","f","Oxygen-Sans-11"},
{4,9,"-xxxxx--xx--xxx-xx--xx--xx--xx--xx--","f","tahoma_8_bold"},
{6,12,"x------x-----x-----xx-----x-----x------x-----x-----xx-----x-----x------x","\\","DejaVuSansMono-10"},
{4,10,"x---x----x---x---x----x---x---x----x---x","\\","FreeSans-10"},
{3,9,"xx--xx----xx-xx-xx-xx-xx-xx","ì","segoeUI_8_bold"},
{3,10,"xx--xx---xxx-xx-xx-xx-xx-xx-xx","ì","trebuchetMS_10_bold"},
{5,13,"---xx--x----x----x----x---xx--xx----xx----x----x----x----x-----xx","{","AbyssinicaSIL-R-10"},
{5,14,"--xxx--x----x----x----x----x--xx----xx----x----x----x----x----x-----xx","{","DejaVuSansMono-11"},
{5,13,"xx----xx----x----x----x----xx----xx--xx---x----x----x---xx--xx---","}","DroidSans-11"},
{5,12,"xxx----x----x----x----x----xx----xx--x----x----x----x--xxx--","}","DejaVuSansCondensed-9"},
{4,11,"xx---xx-----xxxx-xx--xx--xx--xx--xx--xx-xxxx","Ì","segoeUI_8_bold"},
{3,13,"xx--xx----xx-xx-xx-xx-xx-xx-xx-xx-xx-xx","Ì","trebuchetMS_10_bold"},
{9,8,"----x-------xxx------x-x-----xx-xx----x---x---xx---xx--x-----x-xx-----xx","^","DroidSans-12"},
{8,7,"---xx------xx-----xx-x----x--x---xx---x--x----x-xx----xx","^","DroidSans-11"},
{6,7,"-xxxx-xx--xxxx----xx----xx----xx--xx-xxxx-","c","trebuchetMS_10_bold"},
{6,7,"-xxxx--x---xx-----x-----x-----xx---x-xxxx-","c","DejaVuSerif-9"},
{5,8,"xxxx-x----x----xxx----xx----xx---xxxxxx-","s","Oxygen-Sans-10"},
{5,8,"-xxxxx---xx-----xx----xxx----x---xxxxxx-","s","DroidSans-11"},
{6,6,"xxxxxx-x--x-x----xx----x-x--x-xxxxxx","¤","trebuchetMS_10_bold"},
{4,6,"x--xxxxxx--xx--xxxxxx--x","¤","segoeUI_8_bold"},
{5,6,"xxxxx---xx--xx--xx--xx---xxxxx","z","tahoma_8_bold"},
{6,9,"xxxxxx----xx----x----xx---xx---xx----x----x-----xxxxxx","z","DejaVuSansCondensed-12"},
{6,10,"--xxx--x--xxxx----x-----xx----xx--xx-xxxx----xx-----x---xxx-","ç","FreeSans-9"},
{6,12,"--xxxx-x---xxx----x-----x-----xx-----x---x--xxxx---x-----xx-----x---xxx-","ç","segoeUI_11"},
{6,12,"-xxxx-x-----xx-----xxx--x---x-x----xxx---x-xxxx----xx-----x--x--x--xxx--","§","DejaVuSerif-11"},
{5,12,"-xxx-xx---xx---xxx--x-xx-x--xxx---xxxx-x--xx----xx---xxxxxx-","§","DejaVuSansCondensed-11"},
{6,13,"--xx--xxxxxxx---xx-----x----xx---xx---xx----xx----x-----x-----------x-----x---","?","DejaVuSansCondensed-12"},
{5,11,"xxxx-x--xx----x---xx---x---x----x---x---------xx---xx--","?","Oxygen-Sans-11"},
{4,11,"-xx-x--x-----x---x---x---x---x---x---x---x--","î","segoeUI_11"},
{5,10,"-xxx-xx-xx-----xxx---xx---xx---xx---xx---xx---xx--","î","trebuchetMS_10_bold"},
{4,9,"xx--xx--xx---xx--xx--xx---xx--xx--xx","\\\\","segoeUI_8_bold"},
{6,13,"xx-----x-----x-----xx-----x-----x------x-----x-----xx-----x-----x-----xx-----x","\\\\","segoeUI_11"},
{5,13,"-xxx-xx-xx------xx---xx---xx---xx---xx---xx---xx---xx---xx---xx--","Î","trebuchetMS_10_bold"},
{4,14,"-xx-x--x-----x---x---x---x---x---x---x---x---x---x---x--","Î","segoeUI_11"},
{6,3,"-xx---x-xx-x---xxx","~","FreeSans-9"},
{7,2,"xxxx--xx--xxxx","~","DejaVuSansMono-10"},
{6,4,"xxxxxx------------xxxxxx","=","DroidSans-10"},
{8,4,"xxxxxxxx--------xxxxxxxxxxxxxxxx","=","DejaVuSansCondensed-10"},
{8,6,"-----xxx--xxxx--xxx-----xxx--------xxx-------xxx","<","DejaVuSansCondensed-9"},
{6,5,"----xx-xxxx-xx-----xxxx-----xx","<","trebuchetMS_10_bold"},
{8,7,"---xx------xx------xx---xxxxxxxx---xx------xx------xx---","+","segoeUI_11"},
{5,5,"--x----x--xxxxx--x----x--","+","segoeUI_8_bold"},
{9,8,"xx-------xxxx--------xxxx--------xxx------xxx---xxxx--xxxx-----xx-------",">","DejaVuSerif-10"},
{8,8,"x-------xxx-------xxx--------xx------xxx---xxx---xxx----x-------",">","gargi-11"},
{7,7,"--xxx---x--xx------x--xxxxx-x----x-x----x--xxxxxx","a","DejaVuSerif-9"},
{7,8,"--xxx---x---x------x--xxxxx-x----x-x----x-x----x--xxxxxx","a","DejaVuSerif-10"},
{7,8,"-xxxx--xx--xx-x----x-x----xxx----xxx----x-xx--xx--xxxx--","o","DejaVuSansCondensed-11"},
{8,10,"---xx----xxxxx--xx---xx-xx----x-x-----xxx-----xxxx----xxxx----x-xxx--xx--xxxxx--","o","DejaVuSansCondensed-12"},
{7,8,"--xxx---x---xxx-----xxxxxxxxx------x-----x-x---x---xxx--","e","gargi-10"},
{7,8,"--xxxx--x---xxx-----xxxxxxxxx------xx------x----x--xxxx-","e","AbyssinicaSIL-R-10"},
{7,9,"------x-xxxxx-xx--xx-x---xx-x--x-xxx-x--xxxxx--x-xx--xx-xxxxx--","ø","DejaVuSansCondensed-11"},
{6,7,"-xxxx-xx--xxx--xxxx-xx-xxxx--xxx--xx-xxxx-","ø","DroidSans-9"},
{5,7,"x---xx---xx---xx---xx---xxx-xx-xx-x","u","FreeSans-9"},
{6,8,"x----xx----xx----xx----xx----xx---xxxx--xxxxxx-x","u","gargi-10"},
{8,9,"xxx--xxx-xxxxxx---xxxx----xxxx-----xx-----xxxx----xxxx---xxxxxx-xxx--xxx","x","DejaVuSansMono-12"},
{6,6,"x----x-x--x---xx----xx---x--x-xx--xx","x","AbyssinicaSIL-R-8"},
{6,6,"x----xxx--xx-x--x--x--x---xx----xx--","v","AbyssinicaSIL-R-8"},
{8,8,"xxx--xxx-x----x--xx--xx---x--x----x--x----xxxx-----xx------xx---","v","DejaVuSerif-10"},
{6,9,"x-xxx-xx---xx----xx----xx----xx----xx----xx----xx----x","n","gargi-11"},
{8,9,"xx-xxxx-xxx--xxxxx----xxxx----xxxx----xxxx----xxxx----xxxx----xxxx----xx","n","AbyssinicaSIL-R-12"},
{8,12,"---xxxx---xx--xx--x-------x------xx-----xxxxxx---xx------xx------xx------xx------xx-----xxxxxxxx","£","Oxygen-Sans-12"},
{7,10,"--xxxx--xx--xx-x----x-x------xx----xxxx-----x------x-----xxxx-x-x--xxx","£","FreeSans-10"},
{6,10,"--xxx--xxxx-xx----x-----xxxxx-xx--xxx---xxx---xxxx--x--xxxx-","6","DejaVuSansCondensed-9"},
{7,12,"---xxx--xxx----x-----xx-----xx-----xxxxxx-xx---xxxx---xxxx----xxx---xx-xx--x---xxx--","6","DroidSans-12"},
{7,8,"--xxxxx-xx----xxxxxx--xx----xxxxxx--xx------xx------xxxx","€","tahoma_8_bold"},
{7,9,"---xxxx--xx----xx----xxxxxx--xx----xxxxx---xx------xx--x---xxxx","€","trebuchetMS_10_bold"},
{5,8,"-xxx-x--xx---xx---xx--xx--xx--xx---xxxxx","2","segoeUI_8_bold"},
{8,12,"-xxxxx--xx---xx-x-----xx------xx------xx-----xx-----xx-----xx-----xx-----xx-----xx------xxxxxxxx","2","AbyssinicaSIL-R-12"},
{7,11,"-xxxx--x----xx------x------x-----xx--xxxx------xx------x------xx----xx-xxxxx-","3","DejaVuSansMono-11"},
{6,10,"xxxxx-----xx-----x----x---xx------xx-----x-----x----xxxxxxx-","3","DejaVuSansCondensed-10"},
{7,11,"-xxxx--xx--xx-x----x-x----x-xx--xx--xxxx--xx---x-x-----xx-----xxx---xx-xxxxx-","8","gargi-10"},
{6,9,"-xxxx-x----xx----xx----x-xxxx-x----xx----xx----x-xxxx-","8","AbyssinicaSIL-R-9"},
{7,10,"-xxxx--xx---x-x-----xx-----xxx---xx-xxxx-x------x-----xxx---xx--xxxx--","9","AbyssinicaSIL-R-10"},
{5,9,"-xxx-x---xx---xx---xx---x-xxxx----xx--x--xxx-","9","FreeSans-9"},
{7,10,"-xxxxx-xx----xx------x-------xx-------xxx-------x------xx----xx-xxxxx-","S","AbyssinicaSIL-R-10"},
{7,11,"--xxxx-xx---xxx------x------xx-------xxx-------xx------x------xxx---xx-xxxxx-","S","DejaVuSansMono-11"},
{6,10,"--xx---x-xx-x---x-x---xxx---xxx----xx---xxx---x-xx--x--xxx--","0","DejaVuSansCondensed-9"},
{8,12,"--xxxx---xx--xx-xxx--xxxxx----xxxx----xxxx-xx-xxxx-xx-xxxx----xxxx----xxxxx--xxx-xx--xx---xxxx--","0","DejaVuSansMono-12"},
{6,11,"-xxx-xxx--xxx---xxx----xx----xx----xx---xx-xxx-x-----x-----x-----x","q","DejaVuSansCondensed-10"},
{7,11,"--xxx-x-x---xxx-----xx-----xx-----xx-----x-x---xx--xxx-x------x------x------x","q","AbyssinicaSIL-R-10"},
{7,10,"-xxx-xxxx--xx-x----x-x----x-x----x-xx--xx--xxx-x------x-x---xx--xxxx--","g","DejaVuSerif-9"},
{9,13,"--xxx-xxx-xx--xxx-xx----xx-xx----xx-xx----xx-xx----xx-xx----xx--xx--xxx---xxx-xx-------xx--x----xx--xx--xx----xxxx---","g","DejaVuSerif-12"},
{7,10,"x------x------x------x------x------x------x------x------x------xxxxxxx","L","DejaVuSansMono-10"},
{5,9,"x----x----x----x----x----x----x----x----xxxxx","L","DejaVuSansCondensed-9"},
{6,10,"x-----x-----x-----x--xx-x-xx--xxx---xxxx--x--x--x--xx-x---xx","k","FreeSans-9"},
{6,11,"x-----x-----x-----x---xxx--xx-x-xx--xxx---xxxx--x--xx-x---x-x---xx","k","DroidSans-10"},
{6,10,"xx--xxxx--xx-------xxxx-----xx-xxxxxxx--xxxx--xxxx--xx-xxxxx","ä","trebuchetMS_10_bold"},
{6,10,"--x--x-------xxxx--x---x-----x--xxxxxx---xx----xx---xx-xxx-x","ä","segoeUI_11"},
{6,10,"-x--x---------xxx--x---xx----xxxxxxxx-----x-----xx--x--xxxx-","ë","segoeUI_11"},
{5,8,"xx-xx------xxx-xx-xxxxxxxxx---xx----xxxx","ë","segoeUI_8_bold"},
{8,11,"xxx--xxx-x----x---x---x---x--xx----x-x-----x-x-----xxx------x-------x------xx----xxx----","y","DejaVuSerif-11"},
{7,11,"x-----xxx---xx-x---x--xx--x---x-xx---x-x-----xx-----xx-----x-----xx----xx----","y","DejaVuSansMono-11"},
{7,12,"-xxxxxx-x------x------x------xxxxx-----xxx------x------x------x------xx----xxxxxxxx-","5","DejaVuSansCondensed-12"},
{6,11,"xxxxx-xx----xx----x-----xxxxx-----xx----xx-----x----xxx---x-xxxx--","5","DroidSans-11"},
{7,11,"x-xxx--xx---x-x-----xx-----xx-----xx-----xxx---x-x-xxx--x------x------x------","p","AbyssinicaSIL-R-10"},
{8,13,"x-xxxx--xxx--xx-xx----xxxx----xxxx----xxxx----xxxx----xxxxx--xx-x-xxxx--xx------xx------xx------xx------","p","DroidSans-12"},
{7,11,"xxxxxx-x-----xx-----xx-----xx-----xxxxxxx-x------x------x------x------x------","P","Oxygen-Sans-11"},
{7,9,"xxxxxx-x----xxx-----xx-----xx----xxxxxxxx-x------x------x------","P","DejaVuSansMono-9"},
{6,9,"xxxxxx-----x----x-----x----x-----x----x-----x----x----","7","AbyssinicaSIL-R-9"},
{5,9,"xxxxx----x---xx---x----x---xx---x----x---xx--","7","DejaVuSansCondensed-9"},
{6,10,"xxxxxxxx----xx----xx----xxxxx-xx----xx----xx----xx----xx----","F","DejaVuSansCondensed-10"},
{6,10,"xxxxxxx-----x-----x-----xxxxxxx-----x-----x-----x-----x-----","F","AbyssinicaSIL-R-10"},
{6,11,"xxxxxxxx----xx----xx----xx----xxxxx-xx----xx----xx----xx----xxxxxx","E","segoeUI_11"},
{5,8,"xxxxxx----x----xxxxxx----x----x----xxxxx","E","AbyssinicaSIL-R-8"},
{7,11,"-----xx-----xx-----xx-xxxxxxxx---xxx----xxx----xxx----xxx----xxxx---xx-xxxxxx","d","segoeUI_11"},
{7,12,"------x------x------x--xxx-x-x---xxx-----xx-----xx-----xx-----xx-----x-x---xx--xxx-x","d","gargi-11"},
{6,10,"---x----x----------xxxx-x---x-x---xxxxxxxxx-----xx-----xxxx-","é","DejaVuSansCondensed-9"},
{6,11,"----xx---xx--------xxxx--x--xxx----xxxxxxxx-----x------x---x--xxxx","é","DroidSans-10"},
{7,9,"---xx-----xx----x-x---xx-x---x--x--xxxxxxx----x------x----xxxxx","4","DejaVuSerif-9"},
{5,9,"---x---xx---xx--x-x----x----x-xxxxx---x----x-","4","FreeSans-9"},
{6,10,"--x----x-x--x----xx----xx----xx----xx----xx----xxx--xx-xxx-x","û","FreeSans-10"},
{6,12,"--xx---x-x------x-------x----xx----xx----xx----xx----xx----xxx--xx-xxx-x","û","Oxygen-Sans-11"},
{6,10,"--xxx--xx-xx-------xxxx-----xx-xxxxxxx--xxxx--xxxx--xx-xxxxx","â","trebuchetMS_10_bold"},
{6,11,"---xx---x--x-------xxxx--x---x-----x--xxxxxx---xx----xx---xx-xxx-x","â","segoeUI_11"},
{6,10,"--xxx--xx-xx-------xxxx-xx--xxxx--xxxxxxxxxx----xx--xx-xxxx-","ê","trebuchetMS_10_bold"},
{5,9,"--xx--x-xx------xxx-xx-xxxxxxxxx---xx----xxxx","ê","segoeUI_8_bold"},
{7,12,"-xx------xx------xx-----------xxxx--x----x------x-xxxxxxxx----xx-----xx----xx-xxxx-x","à","DejaVuSansMono-11"},
{8,12,"-xx-------x--------x--------------xxxx---xx--xx-------x--xxxxxx-xx----x-x-----x-xx---xx--xxxx-xx","à","DejaVuSerif-11"},
{7,10,"--xx------x-----xxxx--xx--xxxx----xxxxxxxxx------xx------xx--xx--xxxx-","è","FreeSans-10"},
{7,12,"--xx------x-------x-----------xxxx--x---x-x-----xxxxxxxxx------x-----x-x---xx--xxxx-","è","DejaVuSerif-11"},
{8,12,"--xx-------x--------x-----------xx---xx--x----x--x----x--x----x--x----x--x----x--xx--xx---xxx-xx","ù","DejaVuSerif-10"},
{8,14,"xx-------xx-------xx--------------------xx----xxxx----xxxx----xxxx----xxxx----xxxx----xxxx----xxxxx--xxx-xxxx-xx","ù","AbyssinicaSIL-R-12"},
{5,9,"-xx-x-x-xx------xxx----xx-xxxxxx-xxxx-xx-xxxx","ã","segoeUI_8_bold"},
{6,10,"--xx-x-x-xx--------xxxx-----xx-xxxxxxx--xxxx--xxxx--xx-xxxxx","ã","trebuchetMS_10_bold"},
{8,13,"xx------xx------xx------xx------xx-xxxx-xxx--xxxxx----xxxx----xxxx----xxxx----xxxx----xxxx----xxxx----xx","h","AbyssinicaSIL-R-12"},
{7,12,"x------x------x------x-xxxx-xxx--xxxx----xxx----xx-----xx-----xx-----xx-----xx-----x","h","Oxygen-Sans-12"},
{7,11,"x------x------x------x-xxx--xx--xx-x----x-x----xxx----xxx----x-xx--xx-xxxxx--","b","segoeUI_11"},
{6,10,"x-----x-----x-----x-xxx-xx--xxx----xx----xx----xxx--xxx-xxx-","b","DroidSans-9"},
{10,12,"xxxxxxxxxx-------xxx------xxx-------xx-------xx-------xxx------xxx-------xx-------xx-------xxx------xxx-------xxxxxxxxxx","Z","AbyssinicaSIL-R-12"},
{9,11,"xxxxxxxxx--------x-------x-------x-------x-------x-------x-------x-------x-------x--------xxxxxxxxx","Z","AbyssinicaSIL-R-11"},
{5,10,"--x---xxxxxxx--x-x--xxx----xxx--x-x--xxxxxxx---x--","$","DroidSans-9"},
{6,12,"--x-----x----xxxx-x-x-xxx-x--x-xx-----xxx-x-x--xx-x--x-xxxx---x-----x---","$","DejaVuSerif-9"},
{5,10,"xx-xx-----xxxx--xx---xx---xx---xx---xx---xx--xxxx-","Ï","segoeUI_8_bold"},
{6,10,"xx--xx-------xxxx---xx----xx----xx----xx----xx----xx---xxxx-","Ï","tahoma_8_bold"},
{6,13,"-x--x-------xxxxxxx-----x-----x-----x-----xxxxx-x-----x-----x-----x-----xxxxxx","Ë","segoeUI_11"},
{5,10,"xx-xx-----xxxxxxx---xx---xxxxxxx---xx---xx---xxxxx","Ë","segoeUI_8_bold"},
{6,12,"---x-----x--------xxxxxxx-----x-----xxxxx-x-----x-----x-----x-----xxxxxx","É","DejaVuSansCondensed-9"},
{7,13,"---xx----xx----------xxxxxxxx------x------x------xxxxxxxx------x------x------x------xxxxxxx","É","DejaVuSansMono-10"},
{6,14,"--xx---x--x-------xxxxxxx-----x-----x-----x-----xxxxx-x-----x-----x-----x-----xxxxxx","Ê","segoeUI_11"},
{5,11,"--xx--x-xx-----xxxxxxx---xx---xxxxxxx---xx---xx---xxxxx","Ê","segoeUI_8_bold"},
{6,11,"---x--------xxxxxxx-----x-----x-----xxxxxxx-----x-----x-----xxxxxx","È","DroidSansArmenian-9"},
{5,11,"-x-----x-------xxxxxx----x----xxxxxx----x----x----xxxxx","È","AbyssinicaSIL-R-8"},
{9,11,"----x--x----xx-xx----x--x---xxxxxxxx---x--x----xx-xx----x--x---xxxxxxxx---x--x-----x-xx----x--x----","#","DejaVuSansMono-11"},
{7,11,"--x--x---x--x---x-xx-xxxxxxx-x--x---x--x---x--x--xxxxxx--x-x---x--x---x--x---","#","Oxygen-Sans-10"},
{7,10,"--xxxx--xx--xxxx-----xx-----xx-----xx-----xx-----xx------xx--xx--xxxx-","C","trebuchetMS_10_bold"},
{9,11,"---xxxxx--xx----xx-x-------x--------x--------x--------x--------x---------x--------xx----xx---xxxxx-","C","AbyssinicaSIL-R-11"},
{6,8,"-xx-xx-------xxxx-xx--xxxx--xxxx--xxxx--xx-xxxx-","ö","segoeUI_8_bold"},
{7,10,"--x--x----------xxx---x---x-x-----xx-----xx-----xx-----x-x---x---xxx--","ö","segoeUI_11"},
{6,8,"-xx-xx------xx--xxxx--xxxx--xxxx--xxxx--xx-xxxxx","ü","segoeUI_8_bold"},
{6,10,"-x--x-------x----xx----xx----xx----xx----xx----xxx--xx-xxx-x","ü","segoeUI_11"},
{7,11,"x-----xx-----xx-----xx-----xx-----xx-----xx-----xx-----xx-----xxx---xx-xxxxx-","U","DejaVuSansMono-11"},
{10,10,"xxx----xxx-x------x--x------x--x------x--x------x--x------x--x------x--x------x---x----xx----xxxxx--","U","DejaVuSerif-10"},
{8,9,"x------xx------xx------xx------xxxxxxxxxx------xx------xx------xx------x","H","AbyssinicaSIL-R-9"},
{8,10,"xx----xxxx----xxxx----xxxx----xxxxxxxxxxxx----xxxx----xxxx----xxxx----xxxx----xx","H","trebuchetMS_10_bold"},
{7,11,"x----x-x----x-x----x-x----x-x----x-x----x-x---xx-xxxxxxxx------x------x------","µ","DejaVuSansMono-10"},
{8,11,"x-----x-x-----x-x-----x-x-----x-x-----x-x-----x-xx---xx-xxxxxxxxx-------x-------x-------","µ","AbyssinicaSIL-R-10"},
{7,10,"x----x-x---x--x--x---x-x----xxx----x--x---x--xx--x---x--x----x-x-----x","K","DejaVuSansMono-10"},
{7,10,"x-----xx----x-x---x--x--x---xxx----x-x----x--x---x---x--x----x-x-----x","K","AbyssinicaSIL-R-10"},
{10,9,"xxx----xxx-xxx----x--x-x----x--x--x---x--x---x--x--x---xx-x--x----xxx--x-----xx-xxx-----x-","N","DejaVuSerif-9"},
{8,11,"xx-----xxx-----xxxx----xx-xx---xx--x---xx--xx--xx---x--xx----x-xx----xxxx-----xxx-----xx","N","Oxygen-Sans-10"},
{6,8,"xx--xx---xx-xxxxxxxx-xx-xx-xx-xx-xx-xx-xx-xx-xx-","if","segoeUI_8_bold"},
{10,11,"xxx----xxx-x------x---x----x-----x--xx-----xxxx-------xx-------x-xx-----xx--xx----x----x---x------x-xxx----xxx","X","DejaVuSerif-11"},
{8,12,"xxx--xxx-xx--xx--xxxxxx---xxxx-----xx------xx------xx-----xxxx----xxxx---xx-xxx--xx--xx-xx----xx","X","DejaVuSansMono-12"},
{7,9,"xx---xx-x---x--xx-xx---xxx-----x------x------x------x------x---","Y","DejaVuSansMono-9"},
{7,10,"xx---xx-x---x--xx-xx---x-x----xxx-----x------x------x------x------x---","Y","DejaVuSansMono-10"},
{7,11,"x-----xxx---xx-x---x--x---x--x---x--xx-xx---x-x----x-x----x-x----xxx----xx---","V","DejaVuSansMono-11"},
{9,11,"xx-----xxxx-----xx-x-----x--xx---xx---x---xx---x---x----xx-xx-----x-xx-----xxx------xxx-------xx---","V","DejaVuSansCondensed-11"},
{6,8,"xx--xxxx-xx-xxxxxxxx-xx-xx-xx-xx-xx-xx-xx-xx-xx-","lf","segoeUI_8_bold"},
{8,11,"xxxxxx--xx--xxx-x-----x-x-----xxx-----xxx-----xxx-----xxx-----xxx-----x-xx--xxx-xxxxx---","D","DroidSans-11"},
{10,12,"xxxxxxx---x------xx-x-------x-x--------xx--------xx--------xx--------xx--------xx--------xx-------x-x------xx-xxxxxxx---","D","gargi-12"},
{8,9,"xxxxxx--x----xx-x-----x-x-----x-xxxxxx--x----x--x-----x-x-----x-x------x","R","DejaVuSansMono-9"},
{11,12,"xxxxxxx-----xx---xxx---xx----xx---xx----xx---xx----xx---xx---xx----xxxxxx-----xx--xxx----xx---xx----xx---xxx---xx----xxx-xxxx----xxx","R","DejaVuSerif-12"},
{6,8,"xxxxx-x----xx----xxxxxx-x---xxx----xx---xxxxxxx-","B","AbyssinicaSIL-R-8"},
{7,9,"xxxxxx-x----xxx-----xx----xxxxxxxx-x----xxx-----xx----xxxxxxxx-","B","AbyssinicaSIL-R-9"},
{9,11,"xxxxxxxxx----x--------x--------x--------x--------x--------x--------x--------x--------x--------x----","T","AbyssinicaSIL-R-11"},
{8,11,"xxxxxxxx---xx------xx------xx------xx------xx------xx------xx------xx------xx------xx---","T","DejaVuSansCondensed-11"},
{6,9,"--xx-----xx--------xxxx-xx--xxxx--xxxx--xxxx--xx-xxxx-","ò","segoeUI_8_bold"},
{6,10,"-xx-----xx---------xxxx-xx--xxxx--xxxx--xxxx--xxxx--xx-xxxx-","ò","trebuchetMS_10_bold"},
{13,12,"---xxxxx-------xx---xx------xx----x------xx------------xx----------x-xx---xxx--x--xxx---x--xx---xxx--x--xx----xxxx---xx-----xxx----xxx----xxx----xxxxxx-xxxx","&","DejaVuSerif-12"},
{9,11,"--xxxx----xx--x----x---x----xx--x-----xxx------xx------x-xx----xx--xx-xxxx---xxx-xx---xxx---xxxx-x-","&","Oxygen-Sans-11"},
{6,9,"--xx---x-xx--------xxxx-xx--xxxx--xxxx--xxxx--xx-xxxx-","ô","segoeUI_8_bold"},
{6,10,"--xxx--xx-xx-------xxxx-xx--xxxx--xxxx--xxxx--xxxx--xx-xxxx-","ô","trebuchetMS_10_bold"},
{6,10,"--xx-x-x-xx--------xxxx-xx--xxxx--xxxx--xxxx--xxxx--xx-xxxx-","õ","trebuchetMS_10_bold"},
{6,9,"-xx-x--x-xx--------xxxx-xx--xxxx--xxxx--xxxx--xx-xxxx-","õ","segoeUI_8_bold"},
{6,9,"-xxx--xx--xxxx----xxx-xxxx--xxxx--xxxx--xxxx--xxxx--xx","fi","tahoma_8_bold"},
{7,11,"--xxxxx-xx-----xx----xxxx--x-xx---x-xx---x-xx---x-xx---x-xx---x-xx---x-xx---x","fi","segoeUI_11"},
{6,9,"-xxxxxxx--xxxx--xxxxx-xxxx--xxxx--xxxx--xxxx--xxxx--xx","fl","tahoma_8_bold"},
{8,15,"---xxxxx-xxx--xx-x------xx------xx------xx------xx------xx-------x-------xxx---x--xxxxxx----x-------xx-------x-----xxx--","Ç","DroidSans-11"},
{11,15,"---xxxxxx----xx----xxx-xx------xxxx--------xxx---------xx---------xx---------xx---------xx-------xx-xx-----xx---xx---xxx----xxxxx---------x-----------x--------xxx---","Ç","DejaVuSerif-12"},
{8,15,"--xx-------xx-----------xx----xxxx----xxxx----xxxx----xxxx----xxxx----xxxx----xxxx----xxxx----xxxx----xx-xx--xx---xxxx--","Ù","DejaVuSansMono-12"},
{8,13,"--xx-------xx-----------x------xx------xx------xx------xx------xx------xx------xx------x-x----x---xxxx--","Ù","DroidSans-10"},
{7,2,"xxxxxxxxxxxxxx","_","DejaVuSansCondensed-11"},
{10,1,"xxxxxxxxxx","_","DejaVuSansMono-12"},
{10,8,"x---xx---xx---xx--xxxx-xxx--xxxx-x-xx-x--x-x-xx-x--xxx--xxx--xxx--xxx--xx---xx--","w","noname"},
{11,8,"xxx--x--xxx-x---x---x--x--xxx--x---x-x-x-x----x-x-x-x----xxx-xxx----xx---xx-----x---x---","w","DejaVuSerif-11"},
{12,9,"x-xxxx--xxx-xxx--xxx--xxxx---xx----xxx---xx----xxx---xx----xxx---xx----xxx---xx----xxx---xx----xxx---xx----x","m","Oxygen-Sans-12"},
{13,9,"x-xxxx--xxxx-xxx--xxx---xxxx----xx---xxxx----x----xxxx----x----xxxx----x----xxxx----x----xxxx----x----xxxx----x----xx","m","DroidSans-12"},
{7,8,"-----xx----xx-xxxxxxxxx--xx-xx--xx-xx--xx-xx--xx-xx--xx-","rf","segoeUI_8_bold"},
{9,11,"------xxx------x--------x--xxxxxxxxxxx----x--xx----x--x-----x--x-----x--x-----x--x-----x--x-----x--","rf","segoeUI_11"},
{13,12,"-----xx-----------xxx----------xxx---------x-xxx--------x--xx-------x---xx-------x----xx-----xx----xx-----xxxxxxxxx----x------xx---x-------xxx-xxxx-----xxxx","A","DejaVuSerif-12"},
{11,12,"----xxx--------xxx--------xxx-------xx-xx------xx-xx-----xx---xx----xx---xx----xxxxxxx---xx-----xx--xx-----xx--xx-----xx-xx-------xx","A","AbyssinicaSIL-R-12"},
{9,10,"--xxxxx---xx---xx-xx-----xxxx------xx-------xx-------xxx------xxx-----xx-xx---xx---xxxxx--","O","FreeSans-10"},
{11,12,"---xxxxx-----xx----xx--xx------xxxx--------xxx--------xx---------xx---------xxx--------xxx--------x-x-------xx--xx----xx----xxxxx---","O","Oxygen-Sans-12"},
{7,8,"--xxx-x-x---xxx---xxxx--xx-xx-xx--xxxx---xxx---x-x-xxx--","Ø","AbyssinicaSIL-R-8"},
{12,12,"---xxxxx---x--xx----xxx--xx------xx-xx------x-x-xx-----x--xxxx----x---xxxx---x----xxxx--x-----xx-x-x------xx-xx------xx--xxx----xx--x---xxxxx---","Ø","DejaVuSerif-12"},
{9,9,"--xxxxxx--xx----xxxx------xx--------x-----xxxx-------xxx------x-xx----xx--xxxxxx-","G","DejaVuSerif-9"},
{10,12,"---xxxxxxx--xx----x--xx-------xx--------xx--------x---------x-----xxxxxx------xxxx------xx-x------xx--xx----xx---xxxxxx-","G","Oxygen-Sans-12"},
{9,9,"xx-----xxxx-----xxxxx---xxxx-x---x-xx-x---x-xx--x-x--xx--x-x--xx--xx---xx---x---x","M","DroidSans-9"},
{9,8,"xx-----xxxxx---xxxxxxx-xxxxx-xxxx-xxx--xx--xxx------xxx------xxx------xx","M","tahoma_8_bold"},
{7,8,"xx---xxxx--xx-xxxxxxxxx--xx-xx--xx-xx--xx-xx--xx--xx-xx-","tf","segoeUI_8_bold"},
{11,14,"---xxxxx-----xx---xx---xx-----xx-xxx-----xxxxx-------xxxx-------xxxx-------xxxx-------xxxxx-----xxx-xx-----xx---xx---xx-----xxxxx---------xx---------xxx--","Q","AbyssinicaSIL-R-12"},
{10,14,"--xxxxx----xx----xx-xx------x-xx------xxx-------xxx--------xx-------xxxx------xxxx------x--xx----xx---xxxxxx--------xx---------xx---------x-","Q","Oxygen-Sans-11"},
{8,9,"-xx-----x--xxx------xx---xx-xxxx-xx-xx---xx-xx---xx-xx---xx-xx---xx--xxx","ît","tahoma_8_bold"},
{7,9,"-xx----x-xxxx-----xx--xx-xxx-xx-xx--xx-xx--xx-xx--xx-xx--xx--xx","ît","segoeUI_8_bold"},
{7,10,"-xx--xx----xx--xxxxxx-xx-xx--xx-xx--xx-xx--xx-xx--xx-xx--xx----xx-----","jf","segoeUI_8_bold"},
{7,10,"-xx-xx----------xxx----xxx----x-x---xx-xx--xx-xx--xxxxx-xx---xxxx---xx","Ä","segoeUI_8_bold"},
{10,13,"---x--x-----------------xx--------xx-------xxxx------x--x------x--x-----x---xx----x----x---xxxxxxxx--x------x--x------x-xx------xx","Ä","segoeUI_11"},
{9,13,"---x--x-------------xxxxx---xx---xx--x-----x-x-------xx-------xx-------xx-------xx-------x-x-----x--xx---xx---xxxxx--","Ö","segoeUI_11"},
{7,10,"-xx-xx----------xxx---xx-xx-xx---xxxx---xxxx---xxxx---xx-xx-xx---xxx--","Ö","segoeUI_8_bold"},
{8,13,"--x--x----------x------xx------xx------xx------xx------xx------xx------xx------xx------x-x----x---xxxx--","Ü","segoeUI_11"},
{7,10,"-xx-xx--------xx---xxxx---xxxx---xxxx---xxxx---xxxx---xxxx---xx-xxxxx-","Ü","segoeUI_8_bold"},
{9,14,"----x--------x-----------------x--------xx------x-x------x-x------x--x----x---x----x---x----xxxxxx--xx----x--x-----x-xx------x","À","Oxygen-Sans-10"},
{10,13,"---xx---------xx------------------xx--------xx-------xxxx------x--x-----xx--x-----x---xx----xxxxxx---xx----xx--x------x-xxx----xxx","À","DejaVuSerif-10"},
{7,11,"---xx----x-xx----------xxx----xxx----x-x---xx-xx--xx-xx--xxxxx-xx---xxxx---xx","Â","segoeUI_8_bold"},
{7,11,"--xxx---xx-xx----------xxx----xxx---xx-xx--xx-xx--xx-xx-xxxxxxxxx---xxxx---xx","Â","tahoma_8_bold"},
{9,14,"----xx------x--x-------------xxxxx---xx---xx--x-----x-x-------xx-------xx-------xx-------xx-------x-x-----x--xx---xx---xxxxx--","Ô","segoeUI_11"},
{8,13,"---xxx----xx-xx-----------xxxx---xx--xx-xx----xxxx----xxxx----xxxx----xxxx----xxxx----xx-xx--xx---xxxx--","Ô","trebuchetMS_10_bold"},
{8,14,"---xx-----x--x----------x------xx------xx------xx------xx------xx------xx------xx------xx------x-x----x---xxxx--","Û","segoeUI_11"},
{7,11,"---xx----x-xx--------xx---xxxx---xxxx---xxxx---xxxx---xxxx---xxxx---xx-xxxxx-","Û","segoeUI_8_bold"},
{7,11,"--xx------xx-----------xxx---xx-xx-xx---xxxx---xxxx---xxxx---xx-xx-xx---xxx--","Ò","segoeUI_8_bold"},
{8,13,"--xx-------xx-------------xxxx---xx--xx-xx----xxxx----xxxx----xxxx----xxxx----xxxx----xx-xx--xx---xxxx--","Ò","trebuchetMS_10_bold"},
{7,11,"--xx-x---x-xx----------xxx----xxx----x-x---xx-xx--xx-xx--xxxxx-xx---xxxx---xx","Ã","segoeUI_8_bold"},
{7,13,"--xx-x--x-xx------------x-----xxx----xxx----x-x---xx-xx--xx-xx--xx-xx--xxxxx-xx---xxxx---xx","Ã","trebuchetMS_10_bold"},
{7,11,"--xx-x---x-xx----------xxx---xx-xx-xx---xxxx---xxxx---xxxx---xx-xx-xx---xxx--","Õ","segoeUI_8_bold"},
{8,13,"---xx-x---x-xx------------xxxx---xx--xx-xx----xxxx----xxxx----xxxx----xxxx----xxxx----xx-xx--xx---xxxx--","Õ","trebuchetMS_10_bold"},
{12,14,"-----xx--------xxxxxx----xx------x---x--------x-x---xxx-x-x-x--x---xx--xx--x---xx--xx--x---xx-x-x--x---xx-x-x---xxx-xx---x-----------xx-----------xxx--xx--------xx-----","@","DejaVuSansCondensed-11"},
{10,10,"---xxxxx---xx----xx--x-------xx---xxx--xx--x--x--xx--x--x-xxx---xxxx---x---------xx----x-----xxxx---","@","AbyssinicaSIL-R-8"},
{7,13,"--x--x--------x-----x-x---x--x---x--x---x---x-x----x-x----x-x-----x------x-----x----xx-----","ÿ","segoeUI_11"},
{8,8,"------xx-----xx--xxxxxxxxx---xx-xx---xx-xx---xx-xx---xx--xxx-xx-","cf","segoeUI_8_bold"},
{8,8,"------xx-----xx--xxxxxxxxx---xx-xxx--xx--xxx-xx---xx-xx-xxx--xx-","sf","segoeUI_8_bold"},
{8,8,"------xx-----xx-xxxxxxxx--xx-xx--xx--xx--xx--xx-xx---xx-xxxx-xx-","zf","segoeUI_8_bold"},
{8,8,"--xx--xx-xx--xx-xxxxxxxx-xx--xx--xx--xx--xx--xx--xx--xx--xx--xx-","ff","segoeUI_8_bold"},
{8,9,"-xxx-xxxxx--xx--xx--xx--xxx-xxx-xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--","ff","tahoma_8_bold"},
{10,10,"xxx----x--x--x--x---x--x--x---x--x-x----xxx--x--------x-xxxx----x-x--x---x--x--x--xx--x--x--x----xxx","%","DejaVuSansCondensed-10"},
{8,10,"-xx-----x--x----x--x-----xx---xx----xx----xx-----x---xx-----x--x----x--x-----xx-","%","DejaVuSansMono-10"},
{8,9,"-xxx----xx--xx--xx--xx--xxx-xxxxxx--xx--xx--xx--xx--xx--xx--xx--xx---xxx","ft","tahoma_8_bold"},
{15,12,"xx----xx-----xx-x----xxx----x--xx---xxx---xx--xx---x-x---xx--xx--xx-xx--xx---x--xx-xx--x----xx-x--xx-xx----xx-x---x-xx----xxxx---xxxx-----xxx---xxx------xx-----xx------xx-----xx---","W","gargi-11"},
{11,10,"x---xx----xx---xx---xxx---x-x--x-xx--x-x--x-xx-x--x--x--x-x--x--x--x-x--x-xx--x-x---xx---xxx---xx----x----xx--","W","DejaVuSansCondensed-10"},
{8,10,"xx------xx------xx------xx--xxx-xx-xx-xxxx-xx---xx--xxx-xx----xxxx-xx-xx-xx-xxx-","ls","trebuchetMS_10_bold"},
{9,8,"-------xx------xx--xxx-xxxx---xx-xx--xxxx-xx-xx-xx-xx-xx-xx-xx--xxxx-xx-","af","segoeUI_8_bold"},
{9,8,"-------xx------xx--xxx-xxxxxx-xx-xx-xxxxx-xx-xx----xx-xx----xx--xxxx-xx-","ef","segoeUI_8_bold"},
{9,8,"-------xx------xx-xx-xxxxxxxx-xx-xx--xxx--xx--xxx--xx-xx-xx-xx-xx-xx-xx-","xf","segoeUI_8_bold"},
{12,10,"---------xxx--------xx----------xx--xx---xxxxxx--xx-xx--xx----xxx---xx----xxx---xx----xxx---xx---xx-xx--xx--xx---xx-xx--","xf","trebuchetMS_10_bold"},
{9,8,"-------xx------xx-xx-xxxxxxxx-xx-xx-xx-xx-xx--x-x--xx--xxx--xx--xxx--xx-","vf","segoeUI_8_bold"},
{9,8,"xx-----xxxx----xx-xx-xxxxxxxx-xx-xx-xxxx--xx-xxxx--xx-xx-xx-xx-xx-xx-xx-","kf","segoeUI_8_bold"},
{9,8,"xxxxxxxxx--xx--xx---xx--xx---xx--xx---xx--xx---xx--xx---xx--xx---xx-xxxx","TI","segoeUI_8_bold"},
{9,10,"-------xx------xx-xx-xxxxxxxx-x--xx--x-x--xx--xxx--xx--xx---xx--xx---xx--xx------xx-------","yf","segoeUI_8_bold"},
{9,10,"xx-------xx-------xx-------xx--xxxx-xx-----xxxx--xxxxxxx-xx--xxxx-xx--xxxx-xx--xx-xx-xxxxx","la","trebuchetMS_10_bold"},
{9,10,"xx-------xx-------xx-------xx--xxxx-xx-xx--xxxx-xx--xxxx-xx--xxxx-xx--xxxx-xx--xx-xx-xxxx-","lo","trebuchetMS_10_bold"},
{9,10,"xx-------xx-------xx-------xx--xxxx-xx-xx--xxxx-xx--xxxx-xxxxxxxx-xx----xx-xx--xx-xx-xxxx-","le","trebuchetMS_10_bold"},
{10,8,"--------xx-------xx--xxxx-xxxxxx--xx-xx-xx--xx-xx-xx--xx-xx-xx--xx-xx--xxxx--xx-","of","segoeUI_8_bold"},
{10,8,"--------xx-------xx-xx--xxxxxxxx--xx-xx-xx--xx-xx-xx--xx-xx-xx--xx-xx--xxxxx-xx-","uf","segoeUI_8_bold"},
{10,8,"--------xx-------xx-xxxxx-xxxxxx--xx-xx-xx--xx-xx-xx--xx-xx-xx--xx-xx-xx--xx-xx-","nf","segoeUI_8_bold"},
{10,8,"----xx--xx----xx-xx--xxxxxxxxxxx--xx-xx-xx--xx-xx-xx--xx-xx-xx--xx-xx--xxxxx-xx-","df","segoeUI_8_bold"},
{10,8,"xx------xxxx-----xx-xxxxx-xxxxxx--xx-xx-xx--xx-xx-xx--xx-xx-xx--xx-xx-xx--xx-xx-","hf","segoeUI_8_bold"},
{10,8,"xx------xxxx-----xx-xxxxx-xxxxxx--xx-xx-xx--xx-xx-xx--xx-xx-xx--xx-xx-xxxxx--xx-","bf","segoeUI_8_bold"},
{10,9,"-xxx-xxx--xx--xx--xxxx--xx----xxx-xxx-xxxx--xx--xxxx--xx--xxxx--xx--xxxx--xx--xxxx--xx--xx","ffi","tahoma_8_bold"},
{10,9,"-xxx-xxxxxxx--xx--xxxx--xx--xxxxx-xxx-xxxx--xx--xxxx--xx--xxxx--xx--xxxx--xx--xxxx--xx--xx","ffl","tahoma_8_bold"},
{10,9,"-xxxxx----xx--xx----xx--xx----xxx-xx--xxxx--xx-xx-xx--xxxx--xx--xxxx--xx--xx-xx-xx--xx--xx","fk","tahoma_8_bold"},
{10,9,"-xxxxx----xx--xx----xx--xx----xxx-xxxxx-xx--xx--xxxx--xx--xxxx--xx--xxxx--xx--xxxx--xx--xx","fh","tahoma_8_bold"},
{10,9,"-xxxxx----xx--xx----xx--xx----xxx-xxxxx-xx--xx--xxxx--xx--xxxx--xx--xxxx--xx--xxxx--xxxxx-","fb","tahoma_8_bold"},
{10,10,"--------xx--------xx----------xx---xxxxx-xx-xx--xx--xxx---xx--xxx---xx--xxx---xx-xx-xx--xxxx---xx-xx","xi","trebuchetMS_10_bold"},
{10,10,"--------xx--------xx----------xx---xxxxx-xx-xx--xx-xx-xx--xx-xx-xx--xx--xxx---xx--xxx---xx---x----xx","vi","trebuchetMS_10_bold"},
{10,10,"--------xx-------xx--xxxxxxxxxxx--xx-xx-xx--xx-xx-xx--xx-xx-xx--xx-xx--xxxxx-xx-----xx--------xx----","qf","segoeUI_8_bold"},
{10,10,"--------xx-------xx--xxxxxxxxxxx--xx-xx-xx--xx-xx-xx--xx-xx-xx--xx-xx--xxxxx-xx-----xx-----xxxx-----","gf","segoeUI_8_bold"},
{10,10,"--------xx-------xx-xxxxx-xxxxxx--xx-xx-xx--xx-xx-xx--xx-xx-xx--xx-xx-xxxxx--xx-xx--------xx--------","pf","segoeUI_8_bold"},
{10,13,"--------xx--------xx----------xx---xxxxx-xx-xx--xx-xx-xx--xx--x-xx--xx--xxx---xx---xx---xx---xx---xx---x-------xxx-------xx-------","yi","trebuchetMS_10_bold"},
{10,14,"-----x--------x-------------------xx--------xx-------xxxx------x--x------x--x-----x---xx----x----x---xxxxxxxx--x------x--x------x-xx------xx","Á","segoeUI_11"},
{11,8,"xxxxxx----xxx---x----xxx---xx--xxxx----x--x-xx----x--x-xx----xxxx-xx-----xx--xx-----xx--","rv","segoeUI_11"},
{11,8,"x-xxx-----xxx---x---x-x----x---x-x----x---x-x-----x-x--x-----x-x--x-----x-x--x------x---","rv","segoeUI_11"},
{11,8,"xxxxxx-xxx---xx--xx--x--xx--xx-----xx---xx----xx----xx---xx-----xx--xx--x--xx--xx---xxx-","TS","segoeUI_8_bold"},
{11,8,"xxxxxxxx-----xx--xx-----xx--xx-----xx--xx-----xx--xx-----xx--xx-----xx--xx-----xx--xxxxx","TL","segoeUI_8_bold"},
{11,8,"xxxxxxxxxxx--xx--xx-----xx--xx-----xx--xxxxx--xx--xx-----xx--xx-----xx--xx-----xx--xx---","TF","segoeUI_8_bold"},
{11,8,"xxxxxxxxxxx--xx--xx-----xx--xx-----xx--xxxxx--xx--xx-----xx--xx-----xx--xx-----xx--xxxxx","TE","segoeUI_8_bold"},
{11,9,"--------xx---------xx-xx---xxxxxx-xx-xx--xx---xxx---xx---xxx---xx---xxx---xx--xx-xx--xx-xx---xx--xx","xt","trebuchetMS_10_bold"},
{11,10,"--------x----------x----xxxxxxxxx-x---x--x--xx------x--x-------x--x-------x--xx------x---x---x--x----xxxx--xxx","ct","segoeUI_11"},
{11,10,"--------x----------x----xxxxxxxxx-x---x--x--x-------x--x-------x--x-------x--x-------x--xx---x--x---xxxx---xxx","ct","segoeUI_11"},
{11,10,"--xxx-xxxx--xx--xx--xx-xx--xx----xxxx-xxx----xx---xxx---xx----xxx--xx-----xxx-xx------xx-xx--xx--xx-xx---xxxx-","fS","trebuchetMS_10_bold"},
{11,10,"--xxxxx-----xx--xx-----xx--xx----xxxx-xx-----xx--xx-----xx--xx-----xx--xx-----xx--xx-----xx--xx-----xx--xxxxxx","fL","trebuchetMS_10_bold"},
{11,11,"xxxxxx----xxx---x----xxx---xx--xxxx----x--x-xx----x--x-xx----xxxx-xx-----xx--xx-----xx---------x----------x--------xx----","ry","segoeUI_11"},
{11,11,"xxxxxx----xxx---x---xxx----x---x-x----xx--x-x-----x-xx-x-----x-x--x-----xxx--x------x----------x---------xx-------xxx----","ry","segoeUI_11"},
{12,7,"xx---xx-xxx--xx-xx-xx-xx--xxx--xx-----xxx---xxx---xxx-----xx-xx-xx-xx-xxxx---xx-xxx-","xs","trebuchetMS_10_bold"},
{12,8,"----------xx---------xx-xx-xx-xxxxxxxx-xx-xx-xx-xx-xx-xx-xx--x-xx-x--xx--xx--xx--xx--xx--xx--xx-","wf","segoeUI_8_bold"},
{12,8,"----------xx---------xx-xxxxxxx-xxxxxx-xx-xx-xx-xx-xx-xx-xx-xx-xx-xx-xx-xx-xx-xx-xx-xx-xx-xx-xx-","mf","segoeUI_8_bold"},
{12,8,"xxxxxxxx--xx--xx---xx-x---xx---xxxx---xx----xx----xx----xx----xx---xxxx---xx---x-xx---xx--xx--xx","TX","segoeUI_8_bold"},
{12,8,"xxxxxxxx--xx--xx--xx--xx--xx---xxxx---xx---xxxx---xx----xx----xx----xx----xx----xx----xx----xx--","TY","segoeUI_8_bold"},
{12,8,"xxxxxxxx--xx--xx--xx--xx--xx--xx--xx--xx---x--x---xx---xxxx---xx---xxxx---xx----xx----xx----xx--","TV","segoeUI_8_bold"},
{12,8,"xxxxxxxx--xx--xx--xx-xx---xx--xx-xx---xx--xxxx----xx--xxxx----xx--xx-xx---xx--xx-xx---xx--xx--xx","TK","segoeUI_8_bold"},
{12,8,"xxxxxxxxxx----xx--xx-xx---xx--xx-xx---xx--xx-xx---xx--xxxx----xx--xx-xx---xx--xx-xx---xx--xx--xx","TR","segoeUI_8_bold"},
{12,8,"xxxxxxxxxxx---xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xxxxx---xx--xx------xx--xx------xx--xx----","TP","segoeUI_8_bold"},
{12,8,"xxxxxxxxxxx---xx--xx--xx--xx--xx--xx--xx--xxxxx---xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xxxxx-","TB","segoeUI_8_bold"},
{12,8,"xxxxxxxxxxxx--xx------xx--xx-----xx---xx----xx----xx----xx----xx---xx-----xx--xx------xx--xxxxxx","TZ","segoeUI_8_bold"},
{12,8,"xxxxxxxxxxxx--xx----xx----xx----xx----xx----xx----xx----xx----xx----xx----xx----xx----xx----xx--","TT","segoeUI_8_bold"},
{12,9,"-xxx-xxx----xx--xx--xx--xx--xx--xx--xxx-xxx-xxxxxx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx---xxx","fft","tahoma_8_bold"},
{12,9,"-xxx-xxx-xxxxx--xx--xx--xx--xx--xx--xxx-xxx-xxx-xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--","fff","tahoma_8_bold"},
{12,10,"--xxxxx---xx-xx--xx---xx-xx---xx-xx-xxxx--xx-xx--xx---xx-xx--xx---xx-xx--xx----x-x---xx----xxx---xx----xxx---xx-----x---","fV","trebuchetMS_10_bold"},
{12,10,"--xxxxxxxx---xx--xx--xx--xx--xx---xxxxxx-xx---xx-xx--xx---xx-xx--xx---xx-xx--xx---xx-xx--xx---xx-xx--xx--xx--xx--xxxxx--","fD","trebuchetMS_10_bold"},
{12,10,"--xxxxxxxx---xx--xx--xx--xx--xx---xxxxxx-xx---xx-xx--xx---xx-xx--xx--xx--xx--xxxxx---xx--xx------xx--xx------xx--xx-----","fP","trebuchetMS_10_bold"},
{12,10,"--xxxxxxxxx--xx--xx---xx-xx--xx---xxxxxx-xx---xx-xx--xxxxxx--xx--xx---xx-xx--xx---xx-xx--xx---xx-xx--xx---xx-xx--xxxxxx-","fB","trebuchetMS_10_bold"},
{12,10,"xx---xx-xxx--xx-xx-xx-xx-xx-xx-xx-----x-xx--xxx---xxx-----xx---xx--xx-xx---xx---xxx----x---------xxx---------xx---------","ys","trebuchetMS_10_bold"},
{13,7,"xx---xx-xxxx--xx-xx-----xx--xxx---xxxxx--xxx--xx--xx--xxx--xx--xx-xx-xx-xx--xxxx---xx-xxxxx","xa","trebuchetMS_10_bold"},
{13,7,"xx---xx-xxxx--xx-xx-xx--xx--xxx--xx------xxx--xx------xxx--xx-----xx-xx-xx--xxxx---xx-xxxx-","xc","trebuchetMS_10_bold"},
{13,7,"xx---xx-xxxx--xx-xx-xx--xx--xxx--xx--xx--xxx--xx--xx--xxx--xx--xx-xx-xx-xx--xxxx---xx-xxxx-","xo","trebuchetMS_10_bold"},
{13,7,"xx---xx-xxxx--xx-xx-xx--xx--xxx--xx--xx--xxx--xxxxxx--xxx--xx-----xx-xx-xx--xxxx---xx-xxxx-","xe","trebuchetMS_10_bold"},
{13,7,"xx---xx-xxxx--xx-xx-xx--xx-xx-xx-xx--xx-xx-xx-xxxxxx--xxx--xx------xxx--xx--xx---x----xxxx-","ve","trebuchetMS_10_bold"},
{13,7,"xx---xxxxxxxx-xx-xx-----xx--xxx-----xx---xxx----xx----xxx---xx----xx-xx-xx----xx---xxxxxxxx","xz","trebuchetMS_10_bold"},
{13,8,"xxxxxxxx---xx--xx--xx---xx--xx--xx---xx--xx--xx---xx--xx--xx---xx--xx--xx---xx--xx--xx---xx--xx---xxxxx-","TU","segoeUI_8_bold"},
{13,8,"xxxxxxxx---xx--xx--xx---xx--xx--xx---xx--xx--xxxxxxx--xx--xx---xx--xx--xx---xx--xx--xx---xx--xx--xx---xx","TH","segoeUI_8_bold"},
{13,8,"xxxxxxxxxxx----xx--xx--xx---xx--xx---xx--xx--xx---xx--xx--xx---xx--xx--xx---xx--xx--xx--xx---xx--xxxxx--","TD","segoeUI_8_bold"},
{13,10,"--xxxx-----xx-xx--xx----xx-xx--xxx---xxxxxx-xxxx--xx-xx--xx-xx-xx-xx--xx--xxxx-xx--xx---xxx-xx--xx----xx-xx--xx----xx-xx--xx-----x","fN","trebuchetMS_10_bold"},
{13,10,"--xxxxx----xx-xx---xx--xx--xx---xx--xx-xxxx---xxxx---xx-----xx----xx-----xx----xx----xxxx---xx---xx--xx--xx---xx--xx--xx--xx----xx","fX","trebuchetMS_10_bold"},
{13,10,"--xxxxx----xx-xx---xx--xx--xx---xx--xx-xxxx---xxxx---xx----xxxx---xx-----xx----xx-----xx----xx-----xx----xx-----xx----xx-----xx---","fY","trebuchetMS_10_bold"},
{13,10,"--xxxxx----xx-xx--xx----xx-xx--xx----xxxxxx-xx----xx-xx--xx----xx-xx--xx----xx-xx--xx----xx-xx--xx----xx-xx---xx--xx--xx----xxxx--","fU","trebuchetMS_10_bold"},
{13,10,"--xxxxx----xx-xx--xx----xx-xx--xx----xxxxxx-xx----xx-xx--xxxxxxxx-xx--xx----xx-xx--xx----xx-xx--xx----xx-xx--xx----xx-xx--xx----xx","fH","trebuchetMS_10_bold"},
{13,10,"--xxxxx---xx--xx--xx--xx---xx--xx-xx---xxxx-xx-xx----xx--xxxx-----xx--xxxxx----xx--xxx-xx---xx--xx--xx---xx--xx---xx--xx--xx----xx","fK","trebuchetMS_10_bold"},
{13,10,"--xxxxxxxxxxx-xx-----xx----xx-----xx---xxxx----xx----xx-----xx----xx-----xx----xx-----xx----xx-----xx----xx-----xx----xx-----xx---","fT","trebuchetMS_10_bold"},
{14,7,"xx---xxxx---xx-xx-xx--xx-xx---xxx----xxx----xxx----xxx----xxx----xxx---xx-xx--xx-xx-xx---xxxx---xx","xx","trebuchetMS_10_bold"},
{14,7,"xx---xxxx---xx-xx-xx--xx-xx---xxx---xx-xx---xxx---xx-xx---xxx----xxx---xx-xx---xxx--xx---xx---x---","xv","trebuchetMS_10_bold"},
{14,8,"xxxxxxxx----xx--xx--xxx---xx--xx--xxxx--xx--xx--xx-xx-xx--xx--xx-xx-xx--xx--xx--xxxx--xx--xx---xxx--xx--xx----xx","TN","segoeUI_8_bold"},
{14,9,"-xxx-xxx-xxx--xx--xx--xx--xxxx--xx--xx----xxx-xxx-xxx-xxxx--xx--xx--xxxx--xx--xx--xxxx--xx--xx--xxxx--xx--xx--xxxx--xx--xx--xx","fffi","tahoma_8_bold"},
{14,9,"-xxx-xxx-xxxxxxx--xx--xx--xxxx--xx--xx--xxxxx-xxx-xxx-xxxx--xx--xx--xxxx--xx--xx--xxxx--xx--xx--xxxx--xx--xx--xxxx--xx--xx--xx","fffl","tahoma_8_bold"},
{14,9,"-xxx-xxxxx----xx--xx--xx----xx--xx--xx----xxx-xxx-xx--xxxx--xx--xx-xx-xx--xx--xxxx--xx--xx--xxxx--xx--xx--xx-xx-xx--xx--xx--xx","ffk","tahoma_8_bold"},
{14,9,"-xxx-xxxxx----xx--xx--xx----xx--xx--xx----xxx-xxx-xxxxx-xx--xx--xx--xxxx--xx--xx--xxxx--xx--xx--xxxx--xx--xx--xxxx--xx--xx--xx","ffh","tahoma_8_bold"},
{14,9,"-xxx-xxxxx----xx--xx--xx----xx--xx--xx----xxx-xxx-xxxxx-xx--xx--xx--xxxx--xx--xx--xxxx--xx--xx--xxxx--xx--xx--xxxx--xx--xxxxx-","ffb","tahoma_8_bold"},
{14,10,"------------xx------------xx--------------xx---x---xxxxx-xx-xxx-xx--xx-xx-xxx-xx--xx-xx-x-x-xx--xx--xxx-xxx---xx--xxx-xxx---xx---x---x----xx","wi","trebuchetMS_10_bold"},
{14,10,"-------xx------------xx------------xx-----xx---xxxx--xx--xx-xx-xx-xx----xxx--xxxx-----xxx--xxxxx----xxx--xx-xx---xx-xx-xx--xx-xx---xxxx---xx","xk","trebuchetMS_10_bold"},
{14,10,"xx---xx-xxxxx--xx-xx-xx--xx---xxx--xx--xx---xxx--xx--xx---xxx---xxxx---xx-xx-xx-----xx---xxxxxxxx--------x----xx-------xx---xx--------xxxxx-","xg","trebuchetMS_10_bold"},
{14,10,"xx---xxxx---xx-xx-xx--xx-xx---xxx---xx-xx---xxx----x-xx---xxx----xxx---xx-xx----xx--xx---xx---xx------------x-----------xxx-----------xx----","xy","trebuchetMS_10_bold"},
{14,10,"xxxxxx--------xx---xx-------xx---xx-------xx---xx--xxxx-xx---xx-xx--xxxxxxx---xx--xxxx--xx--xxxxxxxx--xx--xx----xx---xx-xx--xxxx----xx-xxxx-","Re","trebuchetMS_10_bold"},
{14,10,"xxxxxx------xxxx---xx----xx-xx---xx-------xx---xx--xxxx-xx---xx-xx--xxxxxxx---xx--xxxx--xx--xxxxxxxx--xx--xx----xx---xx-xx--xxxx----xx-xxxx-","Ré","trebuchetMS_10_bold"},
{15,10,"---------xxxxx---------xx--xx---------xx--xx---------xx--xx----------xxxx----------xx-------------xxxxxx---------x----xxxxxxxxxxxx---xx---------xxxxx-","_g","trebuchetMS_10_bold"},
{15,10,"-x--------------x-------------xxxxxx---xx--xx-x---x---xx--xx-x---x--xxx--x--x---xx-x-x--x--x----x-x-xxxx--x----xxx--xx---x----xx---xx---xxx---x---xx--","tw","segoeUI_11"},
{15,10,"xxxxxx--xxxxx--xx---xx-xx--xx-xx---xx-xx---xxxx---xx-xx---xxxx---xx-xx---xxxxxxx---xx---xxxx--xx--xx---xxxx--xx--xx---xxxx---xx-xx--xx-xx----xxxxxxx--","RD","trebuchetMS_10_bold"},
{16,8,"xxxxxxxx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx---x-xxxx-x---xx---x-x--x-x---xx---xxx--xxx---xx----xx--xx----xx----xx--xx--","TW","segoeUI_8_bold"},
{16,8,"xxxxxxxxx----xxx--xx--xxx----xxx--xx--xxxx--xxxx--xx--xxxx--xxxx--xx--xx-x--x-xx--xx--xx-xxxx-xx--xx--xx--xx--xx--xx--xx--xx--xx","TM","segoeUI_8_bold"},
{16,9,"-xxx-xxx-xxx----xx--xx--xx--xx--xx--xx--xx--xx--xxx-xxx-xxx-xxxxxx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx---xxx","ffft","tahoma_8_bold"},
{16,9,"-xxx-xxx-xxx-xxxxx--xx--xx--xx--xx--xx--xx--xx--xxx-xxx-xxx-xxx-xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--xx--","ffff","tahoma_8_bold"},
{16,10,"--xxxxx---x---xx-xx--xx---x---xx-xx---xx-xxx-xx-xxxx--xx-xxx-xx--xx---xx-x-x-xx--xx---xx-x-x-xx--xx----x-x-x-x---xx----xxx-xxx---xx----xx---xx---xx----xx---xx--","fW","trebuchetMS_10_bold"},
{17,7,"-xxxx-xx---x---xxxx--xx-xx-xxx-xx-xx--xx-xx-xxx-xx-xx--xx-xx-x-x-xx-xx--xx--xxx-xxx--xx--xx--xxx-xxx---xxxx----x---x---","ow","trebuchetMS_10_bold"},
{17,7,"xx---xxx---x---xx-xx-xx-xx-xxx-xx---xxx--xx-xxx-xx---xxx--xx-x-x-xx---xxx---xxx-xxx---xx-xx--xxx-xxx--xx---xx--x---x---","xw","trebuchetMS_10_bold"},
{17,7,"xx---xxx-xxx-xxx--xx-xx-xx--xx--xx--xxx--xx--xx--xx--xxx--xx--xx--xx--xxx--xx--xx--xx-xx-xx-xx--xx--xxxx---xxxx--xx--xx","xm","trebuchetMS_10_bold"},
{18,9,"-xxx-xxx-xxxxx----xx--xx--xx--xx----xx--xx--xx--xx----xxx-xxx-xxx-xx--xxxx--xx--xx--xx-xx-xx--xx--xx--xxxx--xx--xx--xx--xxxx--xx--xx--xx--xx-xx-xx--xx--xx--xx--xx","fffk","tahoma_8_bold"},
{18,9,"-xxx-xxx-xxxxx----xx--xx--xx--xx----xx--xx--xx--xx----xxx-xxx-xxx-xxxxx-xx--xx--xx--xx--xxxx--xx--xx--xx--xxxx--xx--xx--xx--xxxx--xx--xx--xx--xxxx--xx--xx--xx--xx","fffh","tahoma_8_bold"},
{18,9,"-xxx-xxx-xxxxx----xx--xx--xx--xx----xx--xx--xx--xx----xxx-xxx-xxx-xxxxx-xx--xx--xx--xx--xxxx--xx--xx--xx--xxxx--xx--xx--xx--xxxx--xx--xx--xx--xxxx--xx--xx--xxxxx-","fffb","tahoma_8_bold"},
{22,7,"-xxxx-xx---x---xx-xxx-xx--xx-xx-xxx-xx-xx-xxxx--xx-xx-xxx-xx-xx---xx--xx-xx-x-x-xx--xxx-xx--xx--xxx-xxx-----xxxx--xx--xxx-xxx--xx-xx-xxxx----x---x----xxx-","ows","trebuchetMS_10_bold"},
