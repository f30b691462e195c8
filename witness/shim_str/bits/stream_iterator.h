// left out: needs the real stream classes
