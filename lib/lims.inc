    {"siml.Lim", "s1", 2, 's', 1, 0, false, 10},
    {"siml.Lim", "s10", 3, 's', 10, 0, false, 10},
    {"siml.Lim", "s300", 4, 's', 300, 0, false, 10},
    {"siml.Lim", "b10", 5, 'b', 10, 0, false, 10},
    {"siml.Lim", "b300", 6, 'b', 300, 0, false, 10},
    {"siml.Lim", "c3", 7, 'i', 0, 3, true, 10},
    {"siml.Lim", "c40", 8, 'i', 0, 40, true, 10},
    {"siml.Lim", "rs", 9, 's', 4, 3, false, 10},
    {"siml.Lim", "kids", 10, 'm', 0, 5, false, 10},
    {"siml.Lim", "rb", 11, 'o', 0, 3, true, 10},
    {"siml.Lim", "rby", 12, 'b', 260, 2, false, 10},
    {"siml.Lim", "rf", 13, 'f', 0, 7, true, 10},
    {"siml2.Lim2", "u3", 1, 'i', 0, 3, false, 7},
    {"siml2.Lim2", "us", 2, 's', 0, 2, false, 7},
    {"siml2.Lim2", "s20", 3, 's', 20, 0, false, 7},
    {"siml2.Lim2", "d4", 4, 'd', 0, 4, true, 7},
    {"siml2.Lim2", "ub", 5, 'o', 0, 2, false, 7},
    {"siml2.Lim2", "b31", 6, 'b', 31, 0, false, 7},
    {"siml2.Lim2", "kids", 7, 'm', 0, 1, false, 7},
    {"siml2.Lim2", "s255", 8, 's', 255, 0, false, 7},
    {"siml3.FileLim", "s12", 2, 's', 12, 0, false, 6},
    {"siml3.FileLim", "b12", 3, 'b', 12, 0, false, 6},
    {"siml3.FileLim", "c4", 4, 'i', 0, 4, true, 6},
    {"siml3.FileLim", "rs", 5, 's', 12, 4, false, 6},
    {"siml3.FileLim", "kids", 6, 'm', 0, 4, false, 6},
    {"siml3.FileLim", "c6", 7, 'i', 0, 6, true, 6},
    {"siml3.FileLim", "s5", 8, 's', 5, 0, false, 6},
    {"siml3.FileLim", "rb", 9, 'b', 40, 2, false, 6},
    {"siml3.MsgLim", "s20", 2, 's', 20, 0, false, 5},
    {"siml3.MsgLim", "c2", 3, 'f', 0, 2, true, 5},
    {"siml3.MsgLim", "rb", 4, 'b', 20, 2, false, 5},
    {"siml3.MsgLim", "kids", 5, 'm', 0, 2, false, 5},
    {"siml3.MsgLim", "c9", 6, 'o', 0, 9, true, 5},
    {"siml3.MsgLim", "d2", 7, 'd', 0, 2, true, 5},
    {"siml3.SpbMsg", "b30", 2, 'b', 30, 0, false, 4},
    {"siml3.SpbMsg", "rs", 3, 's', 30, 4, false, 4},
    {"siml3.SpbMsg", "kids", 4, 'm', 0, 4, false, 4},
    {"siml3.SpbMsg", "c4", 5, 'i', 0, 4, true, 4},
    {"siml3.OneLim", "s7", 2, 's', 7, 0, false, 6},
    {"siml3.OneLim", "b33", 3, 'b', 33, 0, false, 6},
    {"siml3.OneLim", "s12", 5, 's', 12, 0, false, 6},
    {"siml3.OneLim", "kids", 6, 'm', 0, 4, false, 6},
